#!/bin/bash
# seedcatch.sh ID [PROPERTY...]: run the checks against a scratch copy of /repo with the planted bug ID
id=$1; shift
here=$(cd "$(dirname "$0")/.." && pwd)
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])"))
d=$(mktemp -d /tmp/catch.XXXXXX)
cp -a /repo "$d/repo" && git -C "$d/repo" apply "$here/seeded/$id/patch.diff" || { rm -rf "$d"; exit 9; }
cp -a "$here" "$d/verif"
for p in "${props[@]}"; do
  s=$(date +%s)
  out=$(cd "$d/verif" && VERIF_REPO=$d/repo timeout 900 python3 check.py "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v KNOWN | head -1 | cut -c1-240)"
done
rm -rf "$d"
