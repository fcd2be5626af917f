#!/usr/bin/env python3
"""mut.py SPEC.py PROP... : SPEC has MUTS=[(name, [(file,old,new)...], expect)], runs vanalyze for each prop on each."""
import sys,os,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
ns={}; exec(open(sys.argv[1]).read(),ns)
props=sys.argv[2:]
only=os.environ.get('ONLY')
def one(m):
    name,edits,*exp=m
    if only and only not in name: return
    T=tempfile.mkdtemp(prefix='mut-'); out=[]
    try:
        subprocess.check_call(['git','clone','-q','/repo',T+'/repo'])
        for f,o,w in edits:
            p=T+'/repo/'+f; s=open(p).read()
            if o is None: s=s+w
            else:
                assert s.count(o)>=1,(name,f,o)
                s=s.replace(o,w,1)
            open(p,'w').write(s)
        env=dict(os.environ,VREPO=T+'/repo')
        r=subprocess.run(['bash','/verif/tools/export.sh',T+'/ir.json',T+'/t'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: print(name,'EXPORT FAILED',r.stdout[-1500:]); return
        for p in props:
            e=dict(os.environ)
            if p=='C20':
                r=subprocess.run(['bash','/verif/tools/unsafe.sh',T+'/u.tsv',T+'/u'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                if r.returncode: print(name,'UNSAFE FAILED',r.stdout[-800:])
                e['VUNSAFE']=T+'/u.tsv'
            import time; t=time.time()
            try: r=subprocess.run(['/verif/analyzer/target/release/vanalyze',T+'/ir.json',p],env=e,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=int(os.environ.get("MT","300")))
            except subprocess.TimeoutExpired: out.append('%s %s TIMEOUT'%(name,p)); continue
            v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION')][:2]
            out.append('%s %s exit %d (%s) %.0fs %s'%(name,p,r.returncode,exp,time.time()-t,' | '.join(v)[:300]))
        print('\n'.join(out),flush=True)
    finally: shutil.rmtree(T)
with ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex: list(ex.map(one,ns['MUTS']))
