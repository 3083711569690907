#!/bin/bash
# tryseed.sh ID [CHECK...]: apply a planted bug to a scratch copy of the sources and run checks against it
d=/verif/seeded/$1; shift
t=$(mktemp -d /tmp/tryseed.XXXXXX); trap "rm -rf $t" EXIT
git -C /repo archive HEAD src | tar x -C $t && (cd $t && git init -q . && git apply $d/patch.diff) || exit 2
for c in "$@"; do echo "== $c"; VERIF_REPO=$t timeout 900 python3 /verif/checks/$c.py quick 2>&1 | tail -4 | cut -c1-300; done
