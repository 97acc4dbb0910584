#!/bin/bash
# run.sh ID...: decides the properties from the sources in /repo.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
new=; for f in tool/*.go; do [ "$f" -nt bin/vt ] && new=1; done
if [ ! -x bin/vt ] || [ -n "$new" ]; then bash setup.sh || exit 2; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
exec bin/vt check "$@"
