#!/bin/bash
# Development tool: run the checks against planted bugs, each in a copy that
# only the check sees (a private mount namespace), so /repo is never touched.
# usage: trybugs.sh [-a] [-p "C01 C02"] ID...    -a: every check, not only the
# bug's property; -p: these
all=; [ "${1:-}" = -a ] && { all=1; shift; }
only=; [ "${1:-}" = -p ] && { only=$2; shift 2; }
cd /verif || exit 2
for b in "${@:-$(ls seeded)}"; do for b in $b; do
  p=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "seeded/$b/meta.json")
  t=$(mktemp -d /tmp/try.XXXXXX) || exit 2
  cp -a /repo "$t/repo" && git -C "$t/repo" apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; rm -rf "$t"; continue; }
  mkdir "$t/evidence"
  list=$p; [ -n "$all" ] && list=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' MANIFEST.json)
  [ -n "$only" ] && list=$only
  for c in $list; do
    s=$(date +%s)
    out=$(timeout 900 unshare -Urm bash -c 'mount --make-rprivate / 2>/dev/null; mount --bind "$1/repo" /repo && mount --bind "$1/evidence" /verif/evidence && cd /verif && exec ./run.sh "$2"' - "$t" "$c" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then r=CAUGHT; elif [ $rc = 0 ]; then r=missed; else r="ERROR($rc)"; fi
    if [ -z "$all" ] || [ "$r" != missed ]; then echo "$b by $c: $r $(( $(date +%s)-s ))s $(grep -m1 ^violation: <<<"$out" | cut -c1-150)"; fi
    case $r in ERROR*) tail -3 <<<"$out";; esac
  done
  rm -rf "$t"
done; done
