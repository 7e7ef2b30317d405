#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/python" exec /usr/bin/python3 -B "$D/c30_array_unit_demo.py"
