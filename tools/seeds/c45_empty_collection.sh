#!/bin/bash
# run in the podio source tree: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D:$PWD/python" exec python3 "$D/c45_empty_collection_demo.py"
