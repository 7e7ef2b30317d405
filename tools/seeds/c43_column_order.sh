#!/bin/bash
# run in the podio source tree: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
. "$D/common.sh"
mkdir -p "$W/inc/ROOT"
cp "$D"/*.hxx "$W/inc/ROOT/"
echo > "$W/inc/TFile.h"
build_and_run
