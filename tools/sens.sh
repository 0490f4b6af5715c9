#!/bin/bash
# Development: applies a patch (or reverse-applies a commit with -R HASH) to a scratch copy and runs a check against it.
# usage: sens.sh PROP PATCH | sens.sh PROP -R HASH
set -u
d=$(mktemp -d /tmp/sens.XXXXXX)
git -C /repo archive HEAD | tar -x -C "$d"
cd "$d" && git init -q . 
if [ "$2" = -R ]; then git -C /repo show "$3" | git apply -R || exit 9; else git apply "$2" || exit 9; fi
cd /verif && VERIF_REPO=$d ./check "$1"
rc=$?
/bin/rm -rf "$d"
exit $rc
