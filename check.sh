#!/usr/bin/env bash
# check.sh ID        build the simulator against /repo's current tree and decide property ID
# check.sh --build   only build
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
# shellcheck disable=SC1091
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
# Cargo looks at file times only; make sure that the library is rebuilt whenever its
# content differs from what was built last.
stamp=$(cd /repo && find src compose_spec_macros Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p sim/target
exec 9>sim/target/.lock
flock 9
if [ "$(cat sim/target/.stamp 2>/dev/null)" != "$stamp" ]; then
    rm -f "$here/sim/target/.stamp"
    (cd sim && cargo clean --offline -q -p compose_spec -p compose_spec_macros -p composim >/dev/null 2>&1)
fi
if ! (cd sim && cargo build --offline --locked -q 2>"$here/sim/target/build.log"); then
    tail -40 "$here/sim/target/build.log" >&2
    echo "check: the simulator does not build against /repo" >&2
    exit 2
fi
printf '%s' "$stamp" >sim/target/.stamp
exec 9>&-
[ "${1:-}" = --build ] && exit 0
COMPOSIM_ROOT="$here" COMPOSIM_TIER="${VERIF_TIER:-quick}" exec sim/target/debug/composim check "$1"
