#!/bin/bash
# check.sh PROPERTY [tier]: decide one property on /repo's current working tree
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
case "$SEED" in ''|*[!0-9]*) SEED=1;; esac
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO=${VERIF_REPO:-/repo}
cd "$HERE" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/hmath-verif.XXXXXX")
trap 'rm -rf "$SCRATCH"' EXIT
DRV="$HERE/.build/hmath-facts"
if [ ! -x "$DRV" ] || [ "$HERE/driver/src/main.rs" -nt "$DRV" ]; then
  bash "$HERE/driver/build.sh" "$HERE/.build" >"$SCRATCH/drv.log" 2>&1 || { bash "$HERE/driver/build.sh" "$SCRATCH/drv" >>"$SCRATCH/drv.log" 2>&1 && DRV="$SCRATCH/drv/hmath-facts"; }
fi
FACTS="$SCRATCH/facts.json"
(
  cd "$REPO" &&
  HMATH_FACTS_OUT="$FACTS" \
  LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib" \
  RUSTC_WORKSPACE_WRAPPER="$DRV" \
  CARGO_TARGET_DIR="$SCRATCH/target" \
  CARGO_INCREMENTAL=0 \
  cargo +nightly check --offline --all-features --lib
) >"$SCRATCH/facts.log" 2>&1
if [ ! -s "$FACTS" ]; then
  tail -n 40 "$SCRATCH/facts.log"
  FACTS=NOBUILD
fi
PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_SRC="$REPO" python3 "$HERE/analysis/run.py" "$P" "$FACTS" "$TIER" "$SEED" "$HERE"
rc=$?
[ "$rc" = 0 ] && exit 0
if [ "$rc" != 1 ]; then echo "analysis ended with $rc"; exit 1; fi
exit 1
