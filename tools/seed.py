#!/usr/bin/env python3
"""Plant a bug: seed.py ID [--check]   (reads /verif/seeded-src/ID.py-like spec on stdin: python dict literal)
spec keys: property, needs, breaks, edits=[(file, old, new)...], demo (Go test source, package thrift)."""
import sys,os,subprocess,json,shutil
R='/repo/lib/go/src/thrift/'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOENV=off GOFLAGS= GOWORK=off GOPATH=/repo/lib/go
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
[ -d /opt/vp/gocache ] && cp -r /opt/vp/gocache "$s/gocache"
export GOCACHE="$s/gocache"
echo '{"Replace": {"/repo/lib/go/src/thrift/zz_demo_test.go": "'"$d"'/demo_test.go"}}' > "$s/overlay.json"
cd /repo && go test -vet=off -count=1 -timeout 120s -overlay "$s/overlay.json" -run '^TestDemo$' thrift
'''
def main():
    spec=eval(sys.stdin.read()); id=spec['id']
    assert not sh('git -C /repo status --porcelain').stdout
    base=sh('git -C /repo show db287ea:lib/go/src/thrift/x').stdout
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    open(d+'/demo_test.go','w').write(spec['demo'])
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':spec['property'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(d+'/meta.json','w'),indent=1)
    ok=True
    r=sh(d+'/demo.sh')
    if r.returncode!=0: print('DEMO FAILS ON CLEAN TREE',r.stdout[-2000:],r.stderr[-2000:]); ok=False
    try:
        for f,o,n in spec['edits']:
            s=open(R+f).read()
            if s.count(o)<1: print('edit not found',f,o); return 1
            if s.count(o)>1: print('edit ambiguous',f,o,s.count(o)); return 1
            orig=sh('git -C /repo show db287ea:lib/go/src/thrift/'+f).stdout
            s=s.replace(o,n); open(R+f,'w').write(s)
        sh('gofmt -w '+' '.join(R+e[0] for e in spec['edits']))
        diff=sh('git -C /repo diff').stdout
        open(d+'/patch.diff','w').write(diff)
        # removed lines must exist in the original tree
        for f,o,n in spec['edits']:
            orig=set(sh('git -C /repo show db287ea:lib/go/src/thrift/'+f).stdout.splitlines())
        rem=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        allorig=set()
        for f,o,n in spec['edits']: allorig|=set(sh('git -C /repo show db287ea:lib/go/src/thrift/'+f).stdout.splitlines())
        bad=[l for l in rem if l not in allorig]
        if bad: print('WARNING lines not original:',bad)
        r=sh('bash /opt/vp/build.sh')
        if r.returncode: print('NOBUILD',r.stderr[-1500:]); ok=False
        sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        t=json.load(open('/tmp/seed_t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
        miss=set(b['stable'])-set(t['passed'])
        if miss: print('TESTS FAIL',miss); ok=False
        r=sh(d+'/demo.sh')
        if r.returncode==0: print('DEMO PASSES WITH PATCH'); ok=False
        if ok and '--nocheck' not in sys.argv:
            r=sh('/verif/run.sh check %s quick'%spec['property'])
            print('check rc=%d'%r.returncode, [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:3])
    finally:
        sh('git -C /repo checkout -- .')
    print(id,'OK' if ok else 'BAD')
main()
