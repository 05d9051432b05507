#!/bin/bash
# check.sh ID quick|thorough: rebuild from /repo's working tree and run one check
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
"$here/build.sh" || { echo "the simulator does not build against /repo" >&2; exit 2; }
exec "${SIM_TARGET:-$here/target}/release/sim" check "$1" "${2:-quick}"
