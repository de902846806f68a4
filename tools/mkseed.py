#!/usr/bin/env python3
"""Builds and confirms the planted changes of seeded/ (in a scratch copy of /repo).
usage: mkseed.py [id...]"""
import os, sys, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
from seeddefs import SEEDS
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right, nonzero if it is broken
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
python3 - "$R/%s" "$H" "$W" <<'PY'
import sys,json,glob,os
d,h,w=sys.argv[1:4]
json.dump({"Replace":{d+'/zz_'+os.path.basename(f):f for f in glob.glob(h+'/*_test.go')}},open(w+'/o.json','w'))
PY
go test -c -vet=off -overlay "$W/o.json" -o "$W/demo.test" ./%s || exit 3
go build -o "$W/setup" . || exit 3
export SETUP_BIN="$W/setup"
cd "$W" && ./demo.test -test.count=1 -test.timeout 280s -test.run '^TestDemo$'
'''
def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ids = sys.argv[1:] or sorted(SEEDS)
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(V, "seeded", i)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        t = tempfile.mkdtemp(dir="/tmp"); r = t + "/repo"
        sh("cp -a /repo %s" % r)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(r, f); x = open(p).read()
                assert x.count(old) == 1, (i, f, x.count(old), old)
                open(p, "w").write(x.replace(old, new))
            diff = sh("git diff", r).stdout
            open(d + "/patch.diff", "w").write(diff)
            for h in s.get("helpers", ["util"]):
                shutil.copy(V + "/replay/%s_test.go" % h, d + "/%s_test.go" % h)
            pkg = s.get("pkg", "zzdemo")
            open(d + "/demo_test.go", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(DEMO % (pkg, pkg))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            b = sh(". /opt/vp/env.sh; go build ./... && go vet ./test >/dev/null 2>&1; go build ./...", r, executable="/bin/bash")
            g = sh(d + "/demo.sh", "/repo"); x = sh(d + "/demo.sh", r)
            # the stable tests, in the scratch copy
            T = sh(". /opt/vp/env.sh; cd test; rm -f ?.ph1 ?.ph2 circuit.r1cs evals srs.lag pk vk Foo.*.save; for t in TestSetup TestProveAndVerify TestSetupFromPartedR1CS TestProveFromSplitPK; do go test -vet=off -count=1 -timeout 2m -run \"^$t\\$\" . || exit 1; done", r, executable="/bin/bash")
            print(i, s["prop"], "build", b.returncode, "demo good", g.returncode, "demo bad", x.returncode, "stable", T.returncode, flush=True)
            if b.returncode or g.returncode or not x.returncode or T.returncode:
                print(b.stdout[-1500:], g.stdout[-1500:] if g.returncode else "", x.stdout[-800:], T.stdout[-1500:] if T.returncode else "")
            else:
                print("   ", [l for l in x.stdout.splitlines() if "_test.go" in l or "panic" in l][:2])
        finally:
            shutil.rmtree(t)
main()
