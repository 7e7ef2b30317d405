#!/bin/bash
# run in the podio source tree: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -O1 -w -I"$PWD/tools/src" "$D/demo.cpp" -o "$W/demo" || exit 3
timeout 60 "$W/demo" && echo "demo: fine"
