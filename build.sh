#!/bin/bash
# Builds the checker into /verif/bin (or $1).
set -e
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
out=${1:-$here/bin/checker}
mkdir -p "$(dirname "$out")"
cd "$here/checker"
go build -o "$out" .
