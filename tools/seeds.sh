#!/bin/bash
# tools/seeds.sh [ID...]: apply each planted bug to /repo in turn and run its property's check.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	t=$SECONDS
	bin/check "$p" ${TIER:-quick} >/tmp/seed.out 2>&1
	rc=$?
	git -C /repo checkout -q -- .
	git -C /repo clean -fdq
	echo "$id $p rc=$rc $((SECONDS - t))s $(grep -A1 '^VIOLATION' /tmp/seed.out | sed -n 2p)"
done
