#!/bin/bash
# tools/seedtest.sh DIR...: confirms planted bugs in a scratch copy of /repo and says which checks catch them.
# Each DIR is a folder of /verif/seeded. With CHECK=0 only the confirmation is run.
. /verif/env.sh
for d in "$@"; do
	d=$(cd "$d" && pwd)
	id=$(basename "$d")
	prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
	w=$(mktemp -d /tmp/seedXXXXXX)
	cp -a /repo/. "$w/"
	git -C "$w" checkout -q -- . 
	(cd "$w" && timeout 300 bash "$d/demo.sh" >"$w/.demo0" 2>&1); r0=$?
	if ! git -C "$w" apply "$d/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$w"; continue; fi
	(cd "$w" && go build ./... && go vet ./... >/dev/null 2>&1; go test -vet=off -count=1 ./... >"$w/.tests" 2>&1); rt=$?
	(cd "$w" && timeout 300 bash "$d/demo.sh" >"$w/.demo1" 2>&1); r1=$?
	st=ok; [ $r0 -eq 0 ] && [ $r1 -ne 0 ] && [ $rt -eq 0 ] || st="BAD(demo clean=$r0 patched=$r1 tests=$rt)"
	[ $r0 -ne 0 ] && tail -15 "$w/.demo0"
	[ $r1 -eq 0 ] && tail -5 "$w/.demo1"
	[ $rt -ne 0 ] && grep -v '^ok\|no test files' "$w/.tests" | tail -15
	c=-
	if [ "$CHECK" != 0 ]; then
		/verif/bin/checker -dry -repo "$w" -verif /verif -property "${PROPS:-$prop}" >"$w/.check" 2>&1; c=$?
		[ $c -eq 1 ] && c=CAUGHT || c="MISSED($c)"
		c="$c $(grep -c 'violated at' "$w/.check") $(grep 'violated at' "$w/.check" | head -1 | cut -c1-150)"
	fi
	echo "$id [$prop]: $st $c"
	rm -rf "$w"
done
