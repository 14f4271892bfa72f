#!/bin/bash
# builds the extraction tool and the concrete-run harness (both offline, into /verif/.build)
cd "$(dirname "$0")" || exit 1
exec python3 -c '
from vc import common, harness
common.build_vx()
print(harness.build())
'
