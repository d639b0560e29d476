#!/bin/bash
# trybug.sh ID...  runs the check of each planted bug's property against a patched copy of /repo
for id in "$@"; do
	d=$(mktemp -d /tmp/try-XXXXXX)
	cp -a /repo "$d/repo"
	git -C "$d/repo" apply "/verif/seeded/$id/patch.diff" || echo "does not apply"
	p=${PROP:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "/verif/seeded/$id/meta.json")}
	o=$(VERIF_REPO="$d/repo" python3 /verif/run.py check "$p" 2>&1); rc=$?
	echo "$id $p rc=$rc $(echo "$o" | head -2 | cut -c1-220 | tr '\n' ' ')"
	rm -rf "$d"
done
