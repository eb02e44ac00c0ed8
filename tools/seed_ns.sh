#!/bin/bash
# seed_ns.sh [-w WORKERS] ID... : like seed_run.sh, but on copies of /repo and /verif bound over the originals
# in a mount namespace of its own, so that it can run beside other work. CHECK=Cxx runs another check than the bug's own.
W=4; [ "$1" = -w ] && { W=$2; shift 2; }
B=$(mktemp -d /tmp/seedns.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
cp -a /repo "$B/repo"; rm -rf "$B/repo/target"; cp -a /verif "$B/verif"
for id in "$@"; do
  prop=${CHECK:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C "$B/repo" checkout -q . && git -C "$B/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id patch does not apply"; continue; }
  s=$(date +%s)
  unshare -Urm bash -c "mount --bind $B/repo /repo && mount --bind $B/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick bash ./check.sh $prop --workers $W" > "$B/log" 2>&1
  r=$?
  echo "$id $prop exit $r $(($(date +%s) - s))s $(grep -m1 -A1 VIOLATION "$B/log" | tr '\n' ' ' | cut -c1-200)"
done
