#!/opt/veriftools/pyvenv/bin/python3
"""development aid: gcov of all workloads; lists executable lines no workload reaches"""
import os,sys,glob,subprocess,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V,os.path.join(V,'lib')]
import vrun,build
H=vrun.load()
from concurrent.futures import ThreadPoolExecutor
for nd in (2,3):
    so=build.kernels(nd,'cov'); d=os.path.dirname(so)
    for g in glob.glob(d+'/*.gcda'): os.unlink(g)
    jobs=[[n,i] for n,r in sorted(H.REG.items()) if nd in r['dims'] for i in range(r['n'])]
    with ThreadPoolExecutor(8) as ex:
        rs=[r for x in ex.map(lambda k: vrun.run_worker(nd,'cov',so,jobs[k::8],1,900),range(8)) for r in x]
    bad=[r for r in rs if r['t'] in 'VE']; print(nd,'records',len(rs),'bad',len(bad),[ (b['t'],b['s'],b['m'][:200]) for b in bad[:3]])
    os.chdir(d)
    for f in sorted(glob.glob('*.gcda')):
        subprocess.run(['gcov','-r','-s',d,f],capture_output=True) if 0 else subprocess.run(['gcov',f],capture_output=True)
    tot=un=0
    for f in sorted(glob.glob('*.gcov')):
        lines=open(f,errors='replace').read().splitlines()
        if '.f.gcov' not in f and 'Tilting' not in f and 'computeW' not in f: continue
        sub=''; out=[]
        for l in lines:
            m=re.match(r'\s*(\S+):\s*(\d+):(.*)',l)
            if not m: continue
            k=m.group(1); t=m.group(3)
            mm=re.match(r'\s*(subroutine|.*function)\s+(\w+)',t,re.I)
            if mm: sub=mm.group(2)
            if k=='-': continue
            tot+=1
            if k.startswith('#'): un+=1; out.append('   %s:%s %s'%(m.group(2),sub,t.strip()[:90]))
        if out: print(nd,f,len(out)); print('\n'.join(out[:60]))
    print(nd,'lines',tot,'unreached',un)
