#!/bin/bash
# run.sh ID [quick|thorough]: decides property ID on /repo's current working tree.
# Exit 0: holds. Exit 1 with a VIOLATION line otherwise.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
. "$here/env.sh"
mkdir -p "$here/evidence"
bin=$here/bin/checker
if ! log=$("$here/build.sh" "$bin" 2>&1); then
	# setup and checks may run in read-only or fresh copies: try a private directory
	tmp=$(mktemp -d)
	trap 'rm -rf "$tmp"' EXIT
	bin=$tmp/checker
	if ! log=$("$here/build.sh" "$bin" 2>&1); then
		echo "$log"
		echo "the checker does not build" | tee "$here/evidence/replay-$id.txt"
		echo "VIOLATION property=$id replay=$here/evidence/replay-$id.txt"
		exit 1
	fi
fi
"$bin" -repo "${REPO:-/repo}" -verif "$here" -property "$id" -tier "$tier"
rc=$?
[ $rc -eq 0 ] && exit 0
if [ $rc -ne 1 ]; then
	echo "checker ended with status $rc" | tee "$here/evidence/replay-$id.txt"
	echo "VIOLATION property=$id replay=$here/evidence/replay-$id.txt"
fi
exit 1
