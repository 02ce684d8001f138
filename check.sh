#!/bin/bash
# check.sh <property> <quick|thorough>: build the simulator from /repo and decide one property.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
if [ "$ID" = C35 ]; then exec node jssim/main.js check "$TIER"; fi
t0=$(date +%s.%N)
if ! ./build.sh > build.log.$$ 2>&1; then
  cat build.log.$$ >&2; rm -f "$PWD/build.log.$$"
  echo "check error: the simulator does not build" >&2
  exit 2
fi
rm -f "$PWD/build.log.$$"
b=$(echo "$(date +%s.%N) - $t0" | bc 2>/dev/null || echo 0)
exec ./build/sim check -prop "$ID" -tier "$TIER" -builds "${b:-0}" \
  -evidence "$PWD/evidence" -replays "$PWD/replays" -known "$PWD/known_findings.json"
