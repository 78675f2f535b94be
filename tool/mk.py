import sys,shutil,subprocess
ns={}; exec(open(sys.argv[1]).read(),ns)
for i in map(int,sys.argv[2:]):
    w='/tmp/w%d'%i
    shutil.rmtree(w,ignore_errors=True); shutil.copytree('/repo',w,symlinks=True)
    m=ns['muts'][i]
    for f,a,b in (m if isinstance(m,list) else [m]):
        p=w+'/'+f; s=open(p).read(); assert a in s; open(p,'w').write(s.replace(a,b,1))
