#!/bin/bash
# try.sh ID...: confirm seeded bugs in a scratch copy of /repo: builds, passes the tests, demo 0 without and nonzero with
cd "$(dirname "$0")/../.."
V=$(pwd)
S=/tmp/seedtry
[ -d $S ] || cp -a /repo $S
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
for id in "$@"; do
  d=$V/seeded/$id
  git -C $S checkout -q -- . && git -C $S checkout -q --detach $(git -C /repo rev-parse HEAD)
  (cd $S && bash $d/demo.sh >/tmp/seedtry.a 2>&1); a=$?
  if ! git -C $S apply $d/patch.diff; then echo "$id: DOES NOT APPLY"; continue; fi
  t=ok
  for rt in tokio async-std; do
    (cd $S && CARGO_TARGET_DIR=$S/target cargo build -q --lib --offline --no-default-features --features runtime-$rt >/tmp/seedtry.b 2>&1) || t="BUILD FAILS"
    (cd $S && RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR=$S/target cargo test -q --lib --offline --no-default-features --features runtime-$rt >/tmp/seedtry.t 2>&1) || t="TESTS FAIL"
  done
  (cd $S && bash $d/demo.sh >/tmp/seedtry.c 2>&1); c=$?
  git -C $S checkout -q -- .
  echo "$id: unchanged=$a changed=$c tests=$t  $(tail -1 /tmp/seedtry.c | cut -c1-150)"
  [ $a = 0 ] || tail -5 /tmp/seedtry.a
done
