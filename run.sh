#!/bin/bash
# run.sh ID [quick|thorough]     one check
# run.sh replay FILE             replay a recorded violation
# run.sh setup                   build everything once
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 LC_ALL=C
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
unset CARGO_PROFILE_RELEASE_DEBUG CARGO_PROFILE_DEV_DEBUG
export RUSTC_WRAPPER=$V/sim/wrap.sh SIM_ROOT=$V/sim SIM_VERIF=$V
T=x86_64-unknown-linux-gnu

# build NAME: one build of the simulator, or of the feature-combination nodes,
# with the library in /repo's working tree
build() {
  local san=edges prof=release dir where=$V/sim feat=() cmd=build
  case $1 in
    cov) dir=edges ;;
    chk) dir=edges; prof=checked; ;;
    mem) dir=mem; san=mem ;;
    plain) dir=none; san=none ;;
    plainchk) dir=none; san=none; prof=checked ;;
    lto) dir=none; san=none; prof=lto ;;
    o0) dir=none; san=none; prof=o0 ;;
    lazy) dir=lazy; feat=(--features lazy) ;;
    lazymem) dir=lazymem; san=mem; feat=(--features lazy) ;;
    nostd) dir=nostd; feat=(--no-default-features) ;;
    nostdchk) dir=nostd; prof=checked; feat=(--no-default-features) ;;
    # nodes with their own contexts: features after the dash
    f-*chk) where=$V/sim/feat; san=none; dir=$1; prof=checked; feat=(--features "$(features ${1%chk})") ;;
    f-*) where=$V/sim/feat; san=none; dir=$1; feat=(--features "$(features $1)") ;;
    # the same, only compiled
    k-*) where=$V/sim/feat; san=none; dir=k; cmd=check; feat=(--features "$(features $1)") ;;
    *) echo "unknown build $1" >&2; return 1 ;;
  esac
  (cd "$where" && SIM_SANCOV=$san cargo $cmd --locked --quiet --profile $prof --target $T --target-dir "$V/sim/target/$dir" "${feat[@]}")
}
features() {
  case ${1#?-} in
    none) echo ;;
    *) echo ${1#?-} | tr + ' ' ;;
  esac
}
# build them all side by side; names of failed ones in FAILED, their messages on stderr
build_all() {
  local v
  mkdir -p "$V/sim/target/log"
  for v in "$@"; do
    ( build $v >"$V/sim/target/log/$v" 2>&1; echo $? >"$V/sim/target/log/$v.rc" ) &
  done
  wait
  FAILED=
  for v in "$@"; do
    # once more on its own, in case it was this machine and not the source
    if [ "$(cat "$V/sim/target/log/$v.rc")" != 0 ] && ! build $v >"$V/sim/target/log/$v" 2>&1; then
      FAILED="$FAILED $v"
      echo "build of $v failed:" >&2
      grep -E -A12 '^error' "$V/sim/target/log/$v" | head -60 >&2
    fi
  done
  [ -z "$FAILED" ]
}
variants() {
  case $1 in
    C11) echo cov mem lazymem ;;
    C12) echo cov lazymem lazy ;;
    C13) echo cov plain ;;
    C14) echo cov chk mem ;;
    C15) echo cov plain plainchk lto o0 ;;
    C16) echo cov chk lazy nostd nostdchk f-none f-nonechk f-std f-lazy f-hmac f-static f-std+hmac f-std+static ;;
    *) echo cov chk ;;
  esac
}
case ${1:-} in
  setup)
    build_all cov || exit 1
    exit 0 ;;
  replay)
    vs=$(sed -n 's/.*"variants": *"\([^"]*\)".*/\1/p' "$2")
    build_all cov $(echo $vs | tr ' ' '\n' | grep -vx cov)
    case " $FAILED " in *" cov "*) exit 2 ;; esac
    export SIM_BUILD_FAILED=$FAILED
    exec "$V/sim/target/edges/$T/release/sim" replay "$2" ;;
  C*)
    tier=${2:-${VERIF_TIER:-quick}}
    build_all $(variants $1)
    case " $FAILED " in *" cov "*) exit 2 ;; esac
    export SIM_BUILD_FAILED=$FAILED
    exec "$V/sim/target/edges/$T/release/sim" drive "$1" "$tier" ;;
  *) echo "usage: run.sh ID [quick|thorough] | replay FILE | setup" >&2; exit 2 ;;
esac
