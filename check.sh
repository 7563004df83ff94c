#!/bin/bash
# usage: check.sh <property id> <quick|thorough> [further arguments of the harness]
# Builds the harness against /repo's working tree and explores one property.
# Exit 0: held; exit 1 with a VIOLATION line: broken; anything else: the check gave no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
id=$1
tier=$2
shift 2
. ./build.sh "$id" || exit 2
exec "$MC_BIN" "$id" --tier "$tier" "$@"
