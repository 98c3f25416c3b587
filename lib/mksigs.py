#!/usr/bin/env python3
"""One-time generator of /verif/lib/sigs.json: the call interface (argument order, kinds, array extents)
of every AMPE Fortran routine, taken from the m4-expanded sources.  Run by hand on the base tree, its
output is committed.  The checks call collect() again to notice routines whose argument list was changed or removed by an edit."""
import re,sys,subprocess,glob,json,os
R=os.environ.get('VERIF_REPO','/repo')
def expand(path):
    if path.endswith('.f'): return open(path).read()
    return subprocess.check_output(['m4','-DSAMRAI_FORTDIR=%s/source/fortran'%R,path],text=True)
def logical(src):
    out=[]
    for l in src.splitlines():
        if not l.strip(): continue
        if l[0] in 'cC*!dD': 
            if l[0] in 'dD' and not re.match(r'[dD]\s',l): pass
            else: continue
        l=l.split('!')[0].rstrip() if "'" not in l and '"' not in l else l.rstrip()
        if not l.strip(): continue
        if len(l)>5 and l[:5].strip()=='' and l[5] not in ' 0':
            if out: out[-1]+=' '+l[6:].strip()
            continue
        out.append(l.strip())
    return out
def splitargs(s):
    res=[];d=0;cur=''
    for c in s:
        if c=='(' : d+=1
        if c==')' : d-=1
        if c==',' and d==0: res.append(cur.strip());cur=''
        else: cur+=c
    if cur.strip(): res.append(cur.strip())
    return res
def parse(path):
    subs={};cur=None
    for l in logical(expand(path)):
        ll=l.lower()
        m=re.match(r'(subroutine|function)\s+(\w+)\s*(\((.*)\))?\s*$',ll)
        if m:
            cur={'name':m.group(2),'kind':m.group(1),'args':splitargs(m.group(4) or ''),'decl':{}}
            subs[cur['name']]=cur;continue
        if cur is None: continue
        m=re.match(r'(double precision|integer|logical|character\s*\*?\s*(\(\s*\*?\s*\)|\d+)?|real)\s*(::)?\s*(.*)$',ll)
        if m and not ll.startswith('interp') :
            t=m.group(1).split('*')[0].split('(')[0].strip()
            for v in splitargs(m.group(4)):
                mm=re.match(r'(\w+)\s*(\((.*)\))?(\*\(\*\))?$',v)
                if not mm: continue
                dims=splitargs(mm.group(3).replace(' ','')) if mm.group(3) else None
                cur['decl'][mm.group(1)]=(t,dims)
        if ll=='end' : cur=None
    return subs
def collect(verbose=False):
    res={'common':{}, '2':{}, '3':{}}
    for key,files in (('common',sorted(glob.glob(R+'/source/fortran/*.f'))),('2',sorted(glob.glob(R+'/source/fortran/2d/*.m4'))),('3',sorted(glob.glob(R+'/source/fortran/3d/*.m4')))):
        for p in files:
            for n,s in parse(p).items():
                args=[]
                for a in s['args']:
                    if a not in s['decl']: t,d='?',None
                    else: t,d=s['decl'][a]
                    args.append([a,{'double precision':'d','integer':'i','character':'s','logical':'l'}.get(t,'?'),d])
                ent={'file':os.path.basename(p),'args':args}
                if s['kind']=='function': ent['ret']={'double precision':'d','integer':'i'}.get(s['decl'].get(n,('double precision',))[0],'d')
                res[key][n]=ent
    # declared (unused) shape of the y-side rotation index in the 2d coarsen/refine routines is not the shape of the data
    for n in ('quatcoarsen','quatlinrefine2d'):
        for a in res['2'].get(n,{'args':[]})['args']:
            if a[0]=='iqrot_y': a[2]=['iqlo0:iqhi0','iqlo1:iqhi1+1']
    return res
def compare(old,new):
    """routine -> None (same interface), 'gone', 'changed', or the permutation of the old arguments the routine takes now"""
    r={}
    for n,o in old.items():
        c=new.get(n)
        if c is None: r[n]='gone'; continue
        a,b=o['args'],c['args']
        an,bn=[x[0] for x in a],[x[0] for x in b]
        if len(a)!=len(b): r[n]='changed'
        elif an!=bn and sorted(an)==sorted(bn): r[n]=[an.index(x) for x in bn]
        elif any(x[1]!=y[1] and '?' not in (x[1],y[1]) or (x[2] is None)!=(y[2] is None) for x,y in zip(a,b)): r[n]='changed'
        elif ('ret' in o)!=('ret' in c): r[n]='changed'
    return r
if __name__=='__main__':
    res=collect(True)
    json.dump(res,open('/verif/lib/sigs.json','w'),indent=0,sort_keys=True)
    print({k:len(v) for k,v in res.items()})
