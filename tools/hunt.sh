#!/bin/bash
# hunt.sh [id...]: run the check of each planted bug's property against a copy of /repo with the bug applied.
cd "$(dirname "$0")/.." || exit 2
S=${SEEDED:-/verif/seeded}
W=$(mktemp -d /tmp/hunt.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
git clone -q /repo "$W/r" || exit 2
for d in ${@:-$(ls $S)}; do
  p=$(python3 -c "import json;print(json.load(open('$S/$d/meta.json'))['property'])")
  p=${CHECK:-$p}
  git -C "$W/r" apply "$S/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  out=$(TFTB_REPO=$W/r ./check.sh "$p" "${TIER:-quick}" 2>&1); rc=$?
  git -C "$W/r" checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "caught $d ($p): $(tail -2 <<<"$out" | head -1 | cut -c1-150)"
  else echo "MISSED $d ($p) rc=$rc"; tail -3 <<<"$out"; fi
done
