#!/bin/bash
# hunt.sh [ID ...]: runs each planted bug's check (quick) against it and says whether it is caught.
# ALL=1 runs all checks against each bug; DIR=... takes the bugs from there instead of seeded.
# Works on scratch copies of /repo and of the machinery, which it removes.
cd "$(dirname "$0")/.." || exit 1
S=${DIR:-$PWD/seeded}
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls $S))
W=$(mktemp -d /tmp/hunt.XXXXXX)
trap 'rm -rf "$W"' EXIT
git clone -q /repo $W/repo
mkdir $W/verif && cp -a mc tools known-findings.jsonl MANIFEST.json $W/verif/ && mkdir -p $W/verif/evidence $W/verif/replays
sed -i "s#\"/repo/src\"#\"$W/repo/src\"#" $W/verif/mc/core.py
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json,sys; print(json.load(open('$S/$id/meta.json'))['property'])")
  props=$prop; [ -n "$ALL" ] && props=$(python3 -c "import json; print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  git -C $W/repo apply "$S/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  res=""
  for p in $props; do
    out=$(cd $W/verif && timeout 900 python3 mc/run.py $p --tier quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then res="$res +$p"; elif [ $rc != 0 ]; then res="$res !$p($rc)"; elif [ $p = $prop ]; then res="$res -$p"; fi
  done
  git -C $W/repo checkout -q -- .
  echo "$id$res"
done
