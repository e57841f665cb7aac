#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator from /repo's working tree and searches.
set -u
cd "$(dirname "$0")" || exit 3
V=$(pwd)
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
B=$V/.build
mkdir -p "$B" evidence replays
# objects of another source tree are of no use
if [ "$(cat "$B/repo.txt" 2>/dev/null || echo /repo)" != "${REPO:-/repo}" ]; then find "$B" -mindepth 1 -delete; echo "${REPO:-/repo}" > "$B/repo.txt"; fi
if ! make -j"$(nproc)" B="$B" P="$ID" one >"$B/build_$ID.log" 2>&1; then
  tail -30 "$B/build_$ID.log" >&2; echo "build failed" >&2; exit 3
fi
SECS=${SIM_SECS:-$([ "$TIER" = thorough ] && echo 1200 || echo 36)}
W=$(mktemp -d /tmp/nlasim.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 3
"$B/sim_$ID" run --prop "$ID" --seed "$SEED" --tier "$TIER" --secs "$SECS" --jobs 8 \
  --evidence "$V/evidence/$ID.json" --replays "$V/replays" --known "$V/known_findings.txt"
rc=$?
exit $rc
