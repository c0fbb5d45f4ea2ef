#!/bin/bash
# seedcheck.sh ID [notests]: validate the planted bug seeded/ID in a private copy of /repo
# (mounted over /repo inside a namespace): demo on the clean and the changed tree,
# the stable tests on the changed tree, and the property's own check.
id=$1; V=/verif; W=/tmp/seed.$id; S=$V/seeded/$id
rm -rf "$W"; mkdir -p "$W"; git -C /repo worktree prune
cp -a /repo "$W/tree"; cp -a "$S" "$W/bug"; rm -f "$W/bug/patch.diff" "$W/bug/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
run() { unshare -Urm bash -c "mount --bind $W/tree /repo; cd /repo; $1"; }
run "timeout 300 bash $W/bug/demo.sh" >$W/demo0 2>&1; a=$?
git -C "$W/tree" apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
run "timeout 300 bash $W/bug/demo.sh" >$W/demo1 2>&1; b=$?
echo "$id ($prop): demo clean=$a changed=$b"
[ $a -ne 0 ] && tail -5 $W/demo0; [ $b -eq 0 ] && tail -5 $W/demo1
(cd $V; VERIF_REPO=$W/tree VERIF_EVIDENCE=$W/ev timeout 900 ./run.sh $prop >$W/check 2>&1; echo "$id: check exit $?"; grep -m1 VIOLATION $W/check; tail -1 $W/check)
if [ "$2" != notests ]; then
  run ". /opt/vp/env.sh; python -m pytest -q -p no:cacheprovider --timeout=300 -x 2>&1 | tail -4" | sed "s/^/$id: /"
fi
rm -rf "$W"
