#!/bin/bash
# check.sh <property> [thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")"
. /opt/vp/env.sh
[ -x bin/vcgen ] || bash setup.sh || exit 2
[ "$2" = thorough ] && export VERIF_TIER=thorough
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export VC_HOME="$PWD" VC_REPO=${VC_REPO:-/repo}
exec bin/vcgen check -prop "$1"
