#!/bin/bash
# runseeds.sh [-a] [id...]: run the check of a planted change's property (with -a: every check) on a copy of /repo with the change
ALL=; [ "$1" = -a ] && { ALL=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
one() { i=$1; V=$2; ALL=$3
 t=$(mktemp -d); cp -a /repo $t/repo; cp -a $V/check.sh $V/check.py $V/setup.sh $V/replay $V/engine $V/tools $V/KNOWN_FINDINGS.txt $V/MANIFEST.json $t/ 2>/dev/null
 git -C $t/repo apply $V/seeded/$i/patch.diff || echo "$i: patch does not apply"
 p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
 ps=$p; [ -n "$ALL" ] && ps=$(python3 -c "import json;print(' '.join(json.loads(l)['id'] for l in open('$V/properties.jsonl')))")
 for q in $ps; do
 s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO=$t/repo bash $t/check.sh $q > $t/out 2>&1; rc=$?
 [ $rc != 0 -o -z "$ALL" ] && echo "$i $q rc=$rc $(( $(date +%s)-s ))s $(grep VIOLATION $t/out | sed 's/replay=[^ ]*//')"; done
 rm -rf $t; }
export -f one
ids=${@:-$(ls $V/seeded)}
printf '%s\n' $ids | xargs -P ${P:-4} -I{} bash -c "one {} $V $ALL"
