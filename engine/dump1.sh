#!/bin/bash
# dump1.sh RUNTIME OUT TARGETDIR [REPO] -- debugging aid
cd "${4:-/repo}"
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
find "$3" -path '*async-smtp*' -name '*' -prune -exec rm -rf {} + 2>/dev/null
MIRDUMP_OUT=$2 RUSTC_WORKSPACE_WRAPPER=/verif/.cache/mirdump cargo +nightly check -q --offline --lib --no-default-features --features runtime-$1 --target-dir $3
