#!/bin/bash
# sweep.sh [bug ids...]: runs the check of each planted bug's property on a patched scratch copy; prints caught / MISSED
rm -rf /tmp/vsweep; mkdir -p /tmp/vsweep
rsync -a --exclude seeded --exclude .git /verif/ /tmp/vsweep/ 2>/dev/null || (cd /verif && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C /tmp/vsweep)
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
one() {
  i=$1; w=/tmp/wb/$i; rm -rf $w; mkdir -p /tmp/wb; cp -a /repo $w; git -C $w apply /verif/seeded/$i/patch.diff || { echo "NOAPPLY $i"; return; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
  s=$(date +%s)
  VX_REPO=$w bash /tmp/vsweep/check.sh $p quick > /tmp/wb/$i.log 2>&1; rc=$?
  e=$(( $(date +%s) - s ))
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/wb/$i.log; then echo "caught $i $p ${e}s $(grep -h 'VIOLATION' /tmp/wb/$i.log | head -1 | cut -c1-150)"; else echo "MISSED $i $p rc=$rc ${e}s"; fi
  rm -rf $w
}
export -f one
echo $ids | tr ' ' '\n' | xargs -P ${J:-2} -I{} bash -c 'one {}'
