#!/bin/sh
# usage: check.sh ID   (run in /verif)
cd "$(dirname "$0")" || exit 2
sh build.sh || exit 2
exec ./bin/an check "$1"
