#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines S = [dict(id, property, pkg, edits=[(file, old, new)], demo=go test source, needs, breaks)].
Creates /verif/seeded/<id>/ (patch.diff, demo.sh, demo_test.go.txt, meta.json) and validates it with tools/seed.sh."""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns['S']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mkseed'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', w, 'diff']))
    pk = s['pkg']
    open(d + '/zz_demo_test.go.txt', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 when the property holds on this input, non-zero otherwise
here=$(cd "$(dirname "$0")" && pwd)
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
t=$(mktemp -d)
trap '/bin/rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/{pk}/zz_demo_test.go":"%s/zz_demo_test.go.txt"}}}}' "$PWD" "$here" > "$t/o.json"
go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestZZDemo$' ./{pk}
''')
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    r = subprocess.run(['bash', '/verif/tools/seed.sh', s['id']], capture_output=True, text=True)
    print(r.stdout.strip(), r.stderr.strip(), '' if r.returncode == 0 else '   <-- NOT VALID')
