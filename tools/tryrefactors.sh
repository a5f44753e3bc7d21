#!/bin/bash
# Runs every registered check (or $PROPS) on a copy of /repo after each
# behaviour-preserving edit in tools/refactors (or those named); all of them
# have to stay quiet.
HERE=$(cd "$(dirname "$0")/.." && pwd)
cd "$HERE"
PROPS=${PROPS:-$(python3 -c "
import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || python3 -c "
import json;d=json.load(open('MANIFEST.json'));print(*[c.get('id') or c.get('property_id') for c in d['properties']])")}
one() {
  t=$(mktemp -d /dev/shm/tr.XXXXXX); cp -r /repo/zielen /repo/scripts "$t"
  (cd "$t" && python3 "$HERE/tools/refactors/$1.py") || { echo "no apply $1"; rm -rf "$t"; return; }
  if [ -n "$TESTS" ]; then diff -rq /repo/zielen "$t/zielen" | head -3; fi
  for q in $PROPS; do
    o=$(python3 -m zcheck "$q" --root "$t" 2>&1); rc=$?
    [ $rc = 0 ] || printf "%-14s %s rc=%d %s\n" "$1" "$q" $rc "$(echo "$o" | grep '^  ' | cut -c1-170 | head -${L:-2})"
  done
  echo "done $1"; rm -rf "$t"
}
export -f one; export HERE PROPS L TESTS
{ [ -n "$1" ] && printf "%s\n" "$@" || ls tools/refactors | sed 's/\.py$//'; } | xargs -P ${J:-7} -I{} bash -c 'one {}'
