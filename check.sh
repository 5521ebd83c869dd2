#!/bin/bash
# check.sh ID [quick|thorough]: builds from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
mkdir -p evidence replays
python3 tools/build.py "$id" || exit 2
exec build/bin/"$id" --tier "$tier" --seed "$VERIF_SEED" --evidence "evidence/$id.json" --replays "$PWD/replays" "${@:3}"
