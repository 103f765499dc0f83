#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: write /verif/seeded/<id>/ from a spec file that
defines: id, prop, pkg, edits=[(file,old,new)...], demo (Go test source), needs, breaks."""
import sys, os, json, subprocess, tempfile, shutil
DEMO = '''#!/bin/bash
# Run in the repository's root. Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
export GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOWORK=off PATH=/opt/veriftools/go1.24.13/bin:$PATH
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 200s %(flags)s -run '^TestDemo$' ./%(pkg)s
'''
for spec in sys.argv[1:]:
    g = {'flags': ''}
    exec(open(spec).read(), g)
    d = '/verif/seeded/' + g['id']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='/tmp/mkseed')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base' % (w, w), shell=True)
        for f, old, new in g['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (g['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write(DEMO % g)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go', 'w').write(g['demo'].lstrip('\n'))
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', d)
