#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py ...: writes /verif/seeded/<id>/ for a planted bug
after confirming that it builds, passes the tests, and that its
demonstration tells the changed tree from the unchanged one.
SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new)], demo (Go test body)."""
import sys, os, subprocess, shutil, json, tempfile, re
SH='''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for this input
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
printf '{"Replace": {"%s/zz_demo_verif_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$scratch/overlay.json"
timeout 250 go test -count=1 -overlay "$scratch/overlay.json" -run '^TestDemoVerif$' . > "$scratch/out" 2>&1
rc=$?
tail -c 1500 "$scratch/out"
exit $rc
'''
def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local')
bad=0
for spec in sys.argv[1:]:
    ns={}
    exec(open(spec).read(), ns)
    for s in ns['seeds']:
        d=tempfile.mkdtemp(prefix='seed', dir='/tmp')
        try:
            w=os.path.join(d,'w'); shutil.copytree('/repo', w, symlinks=True)
            for f,a,b in s['edits']:
                p=os.path.join(w,f); t=open(p).read()
                assert t.count(a)==1, (s['id'], f, t.count(a), a)
                open(p,'w').write(t.replace(a,b))
            r=run(['gofmt','-l','.'],w)
            if r.stdout.strip(): print(s['id'],'gofmt',r.stdout)
            diff=run(['git','diff'],w).stdout
            # original lines only
            out=os.path.join(d,'o'); os.mkdir(out)
            open(os.path.join(out,'patch.diff'),'w').write(diff)
            open(os.path.join(out,'demo.sh'),'w').write(SH); os.chmod(os.path.join(out,'demo.sh'),0o755)
            body=s['demo']
            text=body+s.get('pre','')
            imps=sorted(set(i for i in ['strings','fmt','errors','io','bytes','sort','time','sync','strconv','reflect','math','os','os/exec','sync/atomic'] if re.search(r'\b'+i.split('/')[-1]+r'\.[A-Z]',text)) | {'testing'})
            open(os.path.join(out,'demo_test.go'),'w').write('package geoqlparser\n\nimport (\n'+''.join('\t"%s"\n'%i for i in imps)+')\n\n'+s.get('pre','')+'\nfunc TestDemoVerif(t *testing.T) {\n'+body.strip('\n')+'\n}\n')
            run(['gofmt','-w','demo_test.go'],out)
            json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(os.path.join(out,'meta.json'),'w'),indent=1)
            r=run(['go','build','./...'],w,env=env)
            if r.returncode: print(s['id'],'BUILD',r.stdout[:500]); bad+=1; continue
            r=run(['go','test','./...'],w,env=env)
            if r.returncode: print(s['id'],'TESTS FAIL',r.stdout[:600]); bad+=1; continue
            r=run([out+'/demo.sh'],'/repo')
            if r.returncode: print(s['id'],'DEMO FAILS ON UNCHANGED',r.stdout[:800]); bad+=1; continue
            r=run([out+'/demo.sh'],w)
            if r.returncode==0: print(s['id'],'DEMO PASSES ON CHANGED'); bad+=1; continue
            msg=r.stdout
            bl=run(['git','blame','-s','HEAD','--']+[s['edits'][0][0]],'/repo').stdout
            dst='/verif/seeded/'+s['id']
            shutil.rmtree(dst,ignore_errors=True); shutil.copytree(out,dst)
            print(s['id'],'ok:',' '.join(msg.split())[:140])
            rem=[l for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
            for l in rem:
                b=[x for x in bl.split('\n') if x.endswith(') '+l[1:]) or x.rstrip().endswith(')'+l[1:])]
                if b and not any(x.startswith('^7aa0f57') for x in b): print('   NOT ORIGINAL:',l[:80])
        finally:
            shutil.rmtree(d,ignore_errors=True)
sys.exit(bad>0)
