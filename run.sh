#!/bin/bash
# usage: run.sh <property id> quick|thorough
HERE=$(cd "$(dirname "$0")" && pwd)
id=$1
export VERIF_TIER=${2:-quick} VERIF_ROOT="$HERE"
case $id in C03) bin=mcreal ;; *) bin=mc ;; esac
"$HERE/build.sh" $([ $bin = mcreal ] && echo mc) $bin || exit 2
exec "$HERE/target/release/$bin" "$id"
