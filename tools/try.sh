#!/bin/bash
# Usage: try.sh <patch or -R commit> <ID>...: applies a change to /repo, runs checks, and undoes it.
set -u
if [ "$1" = -R ]; then git -C /repo show "$2" | git -C /repo apply -R || exit 9; shift 2; else git -C /repo apply "$1" || exit 9; shift; fi
for p in "$@"; do /verif/check.sh "$p" > /tmp/try.$p 2>&1; echo "$p exit $? $(tail -1 /tmp/try.$p | cut -c1-120)"; grep -m1 "^  \[" /tmp/try.$p | cut -c1-330; grep ERROR /tmp/try.$p | head -2 | cut -c1-200; done
git -C /repo checkout -- .
