#!/bin/bash
# Reverse-applies one commit of /repo in the working tree, runs checks, and restores it.
# usage: revert_test.sh <commit> <property>...
c=$1; shift
git -C /repo diff --quiet || { echo "dirty /repo"; exit 2; }
git -C /repo diff $c $c~1 | git -C /repo apply || { echo "cannot reverse $c"; exit 2; }
for p in "$@"; do bash /verif/check.sh $p 2>&1 | grep -E "^(VIOLATION|signature|$p:)" | cut -c1-200; done
git -C /repo checkout -- .
