#!/bin/bash
# mkbug.sh ID PROPERTY: turn the uncommitted source change in /repo into seeded/ID/patch.diff, then restore /repo.
# Development aid: no check uses it.
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff -- include src > "$d/patch.diff"
test -s "$d/patch.diff"
git -C /repo checkout -- include src
