#!/bin/bash
# tv.sh MODULE TRACE [SHOWLINE]: validate one trace file by hand
f=$(realpath "$2"); cd "$(dirname "$0")/../spec"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
TRACE=$f SHOW=${3:-0} java -XX:+UseSerialGC -Xmx3g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir $d -config $1.cfg $1.tla
