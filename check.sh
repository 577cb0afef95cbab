#!/bin/sh
# check.sh <property id>: decides one property from /repo's current source.
cd "$(dirname "$0")" && exec python3 vsa/check.py "$1"
