#!/bin/bash
# Generates the shim headers and protobuf code the checks compile against.
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import sys; sys.path.insert(0,'vc'); import build; build.setup(); print('setup ok')"
