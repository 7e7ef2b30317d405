#!/bin/bash
# run in the podio source tree: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
. "$D/common.sh"
gen model.yaml demo
build_and_run
