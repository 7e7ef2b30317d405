#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
exec /usr/bin/python3 -B "$D/c36_demo.py" "$PWD"
