#!/bin/bash
# trial.sh PATCH [IDS…]: build a copy of /repo with PATCH, run its tests, the
# demo beside the patch, and the quick checks; works in /tmp/trial-$$
patch="$(realpath "$1")"; shift
v="$(cd "$(dirname "$0")/.." && pwd)"
w=/tmp/trial-$$
mkdir -p $w
trap 'rm -rf "/tmp/trial-$$"' EXIT
cp -a /repo $w/repo
cd $w/repo
git apply "$patch" || { echo "PATCH DOES NOT APPLY"; exit 3; }
if [ -z "$NOTEST" ]; then
  CARGO_TARGET_DIR=$w/repo/target RUSTC_WRAPPER= cargo test --workspace --no-fail-fast --locked --offline > $w/test.log 2>&1
  n=$(grep -c '^test .* ok$' $w/test.log)
  echo "tests ok: $n  failed: $(grep -c '^test .*FAILED$' $w/test.log)"
  [ "$n" -ge 36 ] || { tail -20 $w/test.log; exit 4; }
fi
mkdir -p $w/v && cp -r $v/sim $v/build.sh $v/check.sh $v/known-findings.txt $w/v/
sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" $w/v/sim/Cargo.toml
d="$(dirname "$patch")"
if [ -f "$d/demo.sh" ]; then
  mkdir $w/demo; cp -r $d/* $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
  (cd /repo && timeout 300 bash $w/demo/demo.sh > $w/demo.clean 2>&1); echo "demo clean: $?"
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh > $w/demo.bug 2>&1); echo "demo bug: $?"
fi
cd $w/v && ./build.sh || exit 5
[ $# -gt 0 ] || set -- $(./target/release/sim ids)
for i in "$@"; do
  ./check.sh $i quick > $w/out 2>&1; rc=$?
  echo "$i rc=$rc $(grep -v '^KNOWN' $w/out | tail -1 | cut -c1-60) $( [ $rc = 1 ] && grep -m1 -A0 -E ': ' $w/out | grep -v KNOWN | cut -c1-${W:-140})"
  [ -n "$SHOW" ] && cat $w/out
done
