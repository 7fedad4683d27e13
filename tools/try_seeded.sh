#!/bin/bash
# Runs the check of each planted change's property on a scratch copy of /repo with the change applied.
# usage: try_seeded.sh [-s SECS] ID...
secs=; [ "$1" = -s ] && { secs="--secs $2"; shift 2; }
w=$(mktemp -d) || exit 1
trap 'rm -rf "$w"' EXIT
for id in "$@"; do
	d=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	rm -rf "$w/repo"; mkdir "$w/repo"; git -C /repo archive HEAD | tar -x -C "$w/repo"
	(cd "$w/repo" && git init -q . && git apply "$d/patch.diff") || { echo "$id: does not apply"; continue; }
	t0=$(date +%s)
	out=$(RESDET_REPO="$w/repo" VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py "$p" $secs 2>&1); rc=$?
	echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-200)"
	echo "$out" | grep -B3 '^VIOLATION' | head -4 | cut -c1-250 | sed 's/^/    /'
done
