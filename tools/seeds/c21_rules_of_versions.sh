#!/bin/bash
# a member was renamed in version 3: both older versions need rules that fill it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
/usr/bin/python3 -B "$R/python/podio_class_generator.py" "$D/ev3.yaml" "$W" demo -q -e "$D/evolution.yaml" \
  --old-descriptions "$D/ev1.yaml" "$D/ev2.yaml" || { echo "generator failed"; exit 3; }
/usr/bin/python3 -B "$D/check_rules.py" "$W/src/selection.xml"
