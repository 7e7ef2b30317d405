#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/python" exec /usr/bin/python3 -B "$D/c28_exposed_clash_demo.py"
