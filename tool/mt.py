#!/usr/bin/env python3
# mt.py RUN FILE.py : muts=[(file,old,new)] ; prints for each: tests status + violations
import sys,subprocess,tempfile,shutil,os
from concurrent.futures import ThreadPoolExecutor
run=sys.argv[1]; ns={}; exec(open(sys.argv[2]).read(),ns)
only=set(map(int,sys.argv[3:]))
def one(im):
    i,m=im
    d=tempfile.mkdtemp(prefix='mt',dir='/tmp'); w=d+'/w'
    try:
        shutil.copytree('/repo',w,symlinks=True)
        eds=m if isinstance(m,list) else [m]
        for f,a,b in eds:
            p=w+'/'+f; s=open(p).read()
            if a not in s: return i,m,'NO MATCH '+a[:50],''
            open(p,'w').write(s.replace(a,b,1))
        r=subprocess.run('go build ./... && go test ./... 2>&1 | grep -c "^--- FAIL"',shell=True,cwd=w,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        t=r.stdout.strip()
        r=subprocess.run(['timeout','800','/tmp/gq','-run',run,'-repo',w],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        o=[l.strip().replace(w+'/','') for l in r.stdout.split('\n') if l.startswith('   ') and not l.strip().split(' ')[0] in('stat','assumed','note')]
        tm=[l for l in r.stdout.split('\n') if l.startswith('==') ]
        return i,m,t,o,tm[-1] if tm else r.stdout[-300:]
    finally: shutil.rmtree(d,ignore_errors=True)
ms=[(i,m) for i,m in enumerate(ns['muts']) if not only or i in only]
with ThreadPoolExecutor(int(os.environ.get('J','7'))) as ex:
    for x in ex.map(one,ms):
        i,m,t,o=x[:4]
        e=m[0] if isinstance(m,list) else m
        print('%d [%s] %s => %s'%(i,t[:100],' '.join(e[1].split())[:60],' '.join(e[2].split())[:70]), x[4] if len(x)>4 else '')
        for l in (o or [])[:int(os.environ.get('N','2'))]: print('      ',l[:int(os.environ.get('W','220'))])
        if len(o)>2: print('       ...',len(o))
