#!/bin/bash
# seed_try.sh ID: confirms a planted bug in a scratch clone: demo passes clean, patch builds and passes the
# stable tests, demo fails with it. Then (unless NOCHECK=1) runs the property's check against /repo with the patch.
id=$1; d=/verif/seeded/$id
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
[ -d /tmp/sr ] || { git clone -q /repo /tmp/sr; cp /repo/Cargo.lock /tmp/sr/ 2>/dev/null; }
cd /tmp/sr && git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd -e target
rm -rf /tmp/seed_$id; cp -a $d /tmp/seed_$id
( bash /tmp/seed_$id/demo.sh ) >/tmp/seed_clean.log 2>&1; c=$?
git apply --check $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
git apply $d/patch.diff
CARGO_TARGET_DIR=/tmp/sr_target timeout 900 cargo test -p procedural_modelling --no-fail-fast --offline --features bevy,gizmo,nalgebra,netsci,fonts,svg,wgpu -- --test-threads 8 > /tmp/seed_test.log 2>&1
t=$(grep "test result" /tmp/seed_test.log | head -1)
( bash /tmp/seed_$id/demo.sh ) >/tmp/seed_bug.log 2>&1; b=$?
git checkout -q -- .; rm -rf /tmp/seed_$id
echo "$id: demo clean=$c bug=$b tests: $t"
if [ -z "$NOCHECK" ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff && { cd /verif; timeout 900 ./check.sh $p quick > /tmp/seed_check.log 2>&1; rc=$?; git -C /repo checkout -- .; echo "   check $p: rc=$rc $(grep -c ^VIOLATION /tmp/seed_check.log) violations: $(grep ^VIOLATION /tmp/seed_check.log | head -1 | cut -c1-200)"; }
fi
