#!/bin/bash
# ./check.sh PROPERTY [-tier quick|thorough] ...   |   ./check.sh replay FILE   |   ./check.sh selfcheck
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" HOME="${HOME:-/root}"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOTELEMETRY=off
build() {
	mkdir -p bin
	(cd symex && CGO_ENABLED=0 GOFLAGS=-mod=vendor go build -o ../bin/symex.$$ . && mv -f ../bin/symex.$$ ../bin/symex) || { echo "cannot build the checker"; exit 2; }
}
# the checker itself is rebuilt whenever its sources are newer
if [ ! -x bin/symex ] || [ -n "$(find symex -name '*.go' -newer bin/symex -print -quit)" ]; then build; fi
case "$1" in
setup) exec bin/symex selfcheck ;;
replay|selfcheck) exec bin/symex "$@" ;;
*) exec bin/symex check "$@" ;;
esac
