#!/opt/veriftools/pyvenv/bin/python3
"""development aid: mutation analysis of the oracles.  mutate.py <nd> <file.m4|.f> <count> [seed]   (scratch under /tmp/mut)"""
import os,sys,glob,subprocess,re,json,random,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V,os.path.join(V,'lib')]
import vrun,build
from concurrent.futures import ThreadPoolExecutor
REPO='/repo'
def specmap(nd):
    p='/tmp/mut/map%d.json'%nd
    if os.path.exists(p): return json.load(open(p))
    H=vrun.load(); so=build.kernels(nd,'plain')
    def one(n):
        if nd not in H.REG[n]['dims']: return n,[]
        rs=vrun.run_worker(nd,'plain',so,[[n,i] for i in range(min(24,H.REG[n]['n']))],1,600)
        return n,[u for r in rs if r['t']=='Z' for u in r['used']]
    with ThreadPoolExecutor(8) as ex: m=dict(ex.map(one,sorted(H.REG)))
    os.makedirs('/tmp/mut',exist_ok=True); json.dump(m,open(p,'w')); return m
def muts(line):
    """candidate replacements of one source line"""
    r=[]
    code=line
    for pat,reps in ((r'(?<=\w)\+1(?!\d)',['','-1']),(r'(?<=\w)-1(?!\d)',['','+1']),(r'\bdx\(0\)',['dx(1)']),(r'\bdx\(1\)',['dx(0)']),(r'\bh\(1\)',['h(2)']),
        (r' \+ ',[' - ']),(r' - ',[' + ']),(r'(?<=[\w)]) ?\* ?(?=[\w(])',[' / ']),(r'\b0\.5d0\b',['0.25d0']),(r'\b0\.25d0\b',['0.5d0']),(r'\b2\.d0\b',['1.d0']),(r'\b1\.d0\b',['2.d0']),
        (r'\.lt\.',['.le.','.gt.']),(r'\.gt\.',['.ge.','.lt.']),(r'\.eq\.',['.ne.']),(r'\.ge\.',['.gt.']),(r'\.le\.',['.lt.']),(r' < ',[' > ']),(r' > ',[' < ']),
        (r'\bic0\b',['ic1']),(r'\bic1\b',['ic0']),(r'\bifirst(\d)\b',['ifirst\\1+1','ifirst\\1-1']),(r'\bilast(\d)\b',['ilast\\1-1']),(r'\blo(\d)\b',['lo\\1+1']),(r'\bhi(\d)\b',['hi\\1-1']),
        (r'\bmax\(',['min(']),(r'\bmin\(',['max(']),(r'\bm\b(?=\))',['1']),(r'\*\*2',['**3','']),(r',1\)',[',2)']),(r',2\)',[',1)']),(r'\bfx\b',['fy']),(r'flux0',['flux1']),(r'(\d)\.d0',['7.d0'])):
        for m in re.finditer(pat,code):
            for rep in reps:
                n=code[:m.start()]+m.expand(rep)+code[m.end():]
                if n!=code and len(n.rstrip())<=72+8: r.append(n)
    if re.match(r'\s+\w+\s*(\([^=]*\))?\s*=.*',code) and not re.search(r'\bdo\b',code): r.append('c'+code[1:])
    return r
def run(nd,fn,count,seed):
    H=vrun.load(); mp=specmap(nd)
    so=build.kernels(nd,'plain'); d=os.path.dirname(so)
    common=fn.endswith('.f')
    path=os.path.join(REPO,'source/fortran',fn if common else '%dd/%s'%(nd,fn))
    src=open(path).read().split('\n')
    sigs=json.load(open(V+'/lib/sigs.json'))
    where={n:s['file'] for k in ('common',str(nd)) for n,s in sigs[k].items()}
    specs=[n for n,u in mp.items() if any(where.get(x)==fn for x in u)]
    if common: specs=[n for n,u in mp.items() if u]
    cands=[]; decl=False
    for i,l in enumerate(src):
        if not l or l[0] in 'cC*!d' : continue
        if re.match(r'\s*(include|implicit|double precision|integer|character|subroutine|end\b|call stop|stop|print|write|return|define|parameter|real|function|logical)',l,re.I) or re.match(r'\s+&\s*\w*lo\d?:|.*\w:\w',l) : continue
        for n in muts(l): cands.append((i,n))
    rnd=random.Random(seed); rnd.shuffle(cands); cands=cands[:count]
    objs=[o for o in glob.glob(d+'/*.o')]
    base=fn.replace('.m4','').replace('.f',''); oname=('c_' if common else '')+base+'.o'
    def one(k):
        i,n=cands[k]; w='/tmp/mut/w%d_%s_%d'%(nd,base,k); shutil.rmtree(w,ignore_errors=True); os.makedirs(w)
        s=list(src); s[i]=n
        try:
            p=os.path.join(w,fn); open(p,'w').write('\n'.join(s))
            f=os.path.join(w,'x.f')
            open(f,'w').write('\n'.join(s) if common else subprocess.check_output(['m4','-DSAMRAI_FORTDIR='+REPO+'/source/fortran',p],text=True))
            r=subprocess.run(['gfortran','-c','-fPIC','-cpp','-DNDIM=%d'%nd,'-O1',f,'-o',w+'/x.o'],capture_output=True,text=True,cwd=w)
            if r.returncode: return k,'nocompile','' 
            l='%s/lib.so'%w
            subprocess.check_call(['g++','-shared','-o',l]+[o for o in objs if os.path.basename(o)!=oname]+[w+'/x.o','-lgfortran','-lm'])
            order=sorted(specs,key=lambda s:-len([x for x in mp[s] if where.get(x)==fn])/len(mp[s]))
            jobs=[[s_,j] for s_ in order if nd in H.REG[s_]['dims'] for j in range(max(2,H.REG[s_]['n']//(1 if not common else 3)))]
            rs=vrun.run_worker(nd,'plain',l,jobs,1,120)
            v=[x for x in rs if x['t']=='V']; e=[x for x in rs if x['t']=='E']
            return k,('killed' if v else 'error' if e else 'SURVIVED'),(v or e or [{'s':'','m':''}])[0]['m'][:100]
        finally: shutil.rmtree(w,ignore_errors=True)
    res={}
    with ThreadPoolExecutor(8) as ex:
        for k,st,m in ex.map(one,range(len(cands))):
            res[st]=res.get(st,0)+1
            if st in('SURVIVED','error'):
                i,n=cands[k]; print('%s %dd %s:%d\n   - %s\n   + %s  %s'%(st,nd,fn,i+1,src[i].strip(),n.strip(),m if st=='error' else ''),flush=True)
    print('==',nd,fn,len(cands),'of candidates',res,'specs',len(specs),flush=True)
if __name__=='__main__':
    run(int(sys.argv[1]),sys.argv[2],int(sys.argv[3]),int(sys.argv[4]) if len(sys.argv)>4 else 1)
