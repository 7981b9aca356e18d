#!/bin/bash
# seedcheck.sh ID [CHECK..]: try a planted change against its property's check (or the named ones).
# Runs in a private mount namespace: /repo (with the change) and /verif are copy-on-write there,
# the real ones are not touched, so several of these can run at once.
id=$1; shift
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$*" ] || set -- $p
s=/tmp/seedcheck/$id-$$
mkdir -p $s/{ru,rw,vu,vw}
cp $d/patch.diff $s/patch.diff
unshare -m bash -c '
s=$1; shift
mount --make-rprivate /
mount -t overlay overlay -o lowerdir=/repo,upperdir=$s/ru,workdir=$s/rw /repo
mount -t overlay overlay -o lowerdir=/verif,upperdir=$s/vu,workdir=$s/vw /verif
git -C /repo apply $s/patch.diff || { echo "patch does not apply"; exit 2; }
cd /verif
for c in "$@"; do
  t=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 python3 bin/check.py $c 2>&1); rc=$?
  echo "$out" > $s/out-$c
  echo "$0 $c rc=$rc $(( $(date +%s) - t ))s $(grep -B4 "VIOLATION property" <<<"$out" | head -1 | cut -c1-180) | $(tail -1 <<<"$out" | cut -c1-100)"
done' $id $s "$@"
rm -rf "/tmp/seedcheck/$id-$$"
