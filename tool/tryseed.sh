#!/bin/bash
# tryseed.sh ID... : confirm in a scratch copy (bind-mounted over /repo in a private namespace) that the planted bugs
# build, pass the stable tests, and that the demo tells them apart.   CHECKS=1 also runs the property's check.
V=/verif
one() {
  id=$1
  R=/tmp/seedrepo_$id
  rm -rf /tmp/seedrepo_$id; cp -a /repo $R
  D=$V/seeded/$id
  git -C $R apply $D/patch.diff || { echo "$id: patch does not apply"; return; }
  (cd /repo; bash $D/demo.sh >$R.ok 2>&1); a=$?
  unshare -Urm bash -c "mount --bind $R /repo; cd /repo; bash /opt/vp/build.sh >$R.build 2>&1; echo \$? >$R.c; bash /opt/vp/test.sh $R.out >/dev/null 2>&1; bash $D/demo.sh >$R.bad 2>&1; echo \$? >$R.b"
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$R.out'))
print('missing', len(set(b['stable'])-set(o['passed'])))")
  k=
  if [ -n "$CHECKS" ]; then
    p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    [ "$CHECKS" != 1 ] && p=$CHECKS
    s=$(date +%s)
    unshare -Urm bash -c "mount --bind $R /repo; cd /verif; python3-vt vc/check.py $p > $R.check 2>&1; echo \$? >$R.k"
    k="check=$(cat $R.k) $(grep -a '^VIOLATION\|^  fails' $R.check | tail -2 | tr '\n' ' ' | cut -c1-200) $(($(date +%s)-s)) s"
  fi
  echo "$id: clean=$a patched=$(cat $R.b) build=$(cat $R.c) tests: $t $k"
  rm -rf /tmp/seedrepo_$id
}
if [ -n "$PAR" ]; then for id in "$@"; do one $id & done; wait; else for id in "$@"; do one $id; done; fi
