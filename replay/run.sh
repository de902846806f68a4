#!/bin/bash
# run.sh REGEX [cpus]  -- run replay oracles against /repo's working tree
. /opt/vp/env.sh
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
python3 - "$REPO" "$HERE" "$W" "${SHRINK:-}" <<'PY'
import sys,os,json,re,glob
repo,here,w,shrink=sys.argv[1:5]
rep={}
for f in glob.glob(here+'/*_test.go'):
    rep[repo+'/zzverif/'+os.path.basename(f)]=f
if shrink:
    for d in ('phase1','phase2'):
        for f in glob.glob(f'{repo}/{d}/*.go'):
            s=open(f).read()
            n=re.sub(r'\b1048576\b|\b1\s*<<\s*20\b',shrink,s)
            if n!=s:
                o=f'{w}/{d}_{os.path.basename(f)}'
                open(o,'w').write(n); rep[f]=o
json.dump({"Replace":rep},open(w+'/overlay.json','w'))
PY
cd "$REPO" && go test -c -vet=off -overlay "$W/overlay.json" -o "$W/replay.test" ./zzverif || exit 3
case "$1" in *CLI*) go build -o "$W/setup" . || exit 3; export SETUP_BIN="$W/setup";; esac
cd "$W" && ${CPUS:+taskset -c $CPUS} ./replay.test -test.count=1 -test.timeout "${LIMIT:-600}s" -test.run "$1"
