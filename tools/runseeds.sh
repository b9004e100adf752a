#!/bin/bash
# tools/runseeds.sh [id ...]: run the checks of each seed's property against it.
cd "$(dirname "$0")/.."
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
(cd analyzer && go build -o /tmp/ua .) || exit 1
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rs.XXXXXX)
  cp -a /repo "$d/repo"; mkdir -p "$d/v"; cp known_findings.txt "$d/v" 2>/dev/null
  git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || echo "PATCH FAILS"
  t0=$(date +%s)
  out=$(VERIF_DIR=$d/v timeout 900 /tmp/ua -prop $prop -repo $d/repo 2>&1); rc=$?
  t1=$(date +%s)
  echo "$id $prop rc=$rc $((t1-t0))s $(echo "$out" | grep -m1 -E '^  [a-z]+: ' | cut -c1-220)"
  rm -rf "$d"
done
