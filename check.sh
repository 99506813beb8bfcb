#!/bin/bash
# usage: check.sh ID [quick|thorough]   builds what the check needs from /repo's working tree and runs it
# exit 0: held on everything explored; 1: VIOLATION line printed; anything else: error of the check
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$TIER CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$V/target
mkdir -p evidence replays target
# cargo looks at modification times only: force a rebuild of the crate whenever the sources differ in content
(
  flock 9
  now=$(cd /repo && find . -path ./target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$now" != "$(cat target/.repo-hash 2>/dev/null)" ]; then
    find "$V/target" -maxdepth 6 -type d \( -path '*/.fingerprint/cbored*' -o -path '*/build/cbored*' \) -prune -exec rm -rf {} +
    echo "$now" > target/.repo-hash
  fi
) 9>target/.lock
case $ID in
  C16|C17|C18|C19|C23|C26)
    exec python3 "$V/mcd/check.py" "$ID" "$TIER" ;;
  C25)
    exec python3 "$V/miri/check.py" "$ID" "$TIER" ;;
esac
log=$V/replays/build-mc.log
if ! cargo build --release --offline --locked --manifest-path mc/Cargo.toml >"$log" 2>&1; then
  tail -n 60 "$log"
  echo "check.sh: the explorer does not build against /repo" >&2
  exit 3
fi
run() { "$V/target/$1/mc" run "$ID" "$TIER" "evidence/$2.json" "$V/replays" known_findings.txt; }
if [ "$ID" = C04 ]; then
  # stack use: the nesting families again without optimisation (a recursion is no loop there)
  if ! cargo build --profile unopt --offline --locked --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    tail -n 60 "$log"
    exit 3
  fi
  MC_FAMILY=deep run unopt C04-unopt || { rc=$?; mv evidence/C04-unopt.json evidence/C04.json; exit $rc; }
  run release C04 || exit $?
  exec python3 tools/merge_evidence.py evidence/C04.json evidence/C04-unopt.json
fi
run release "$ID"
