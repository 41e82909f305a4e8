#!/bin/bash
# exit 0: the property holds, otherwise it is broken
D=$(cd "$(dirname "$0")" && pwd)
exec python3 -B "$D/kit.py"
