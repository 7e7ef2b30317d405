#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/python" exec /usr/bin/python3 -B "$D/c31_same_versions_demo.py"
