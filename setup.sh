#!/bin/sh
# Builds the rustc driver. The checks build it themselves when it is missing.
cd "$(dirname "$0")" && python3 -c "
import sys
sys.path.insert(0, 'vsa')
import common
print(common.driver())"
