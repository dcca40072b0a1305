#!/bin/bash
# tools/seeded.sh [-a] [ID...]: apply each planted bug to /repo, run its property's check
# (-a: every check), undo it. Only for development; no check uses it.
all=; [ "$1" = -a ] && { all=1; shift; }
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} = 0 ] && mapfile -t ids < <(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  props=$(jq -r .property "seeded/$id/meta.json")
  [ -n "$all" ] && props=$(jq -r '.checks[].property' MANIFEST.json 2>/dev/null || jq -r '.checks|keys[]' MANIFEST.json)
  line="$id:"
  for p in $props; do
    out=$(VERIF_SEED=1 VERIF_TIER=quick ./run.sh check "$p" 2>&1); rc=$?
    case $rc in 1) line+=" $p=CAUGHT";; 0) [ -n "$all" ] || line+=" $p=missed";; *) line+=" $p=rc$rc"; echo "$out" | tail -3;; esac
  done
  echo "$line"
  git -C /repo checkout -q -- .
done
