#!/bin/bash
# builds the extractor and warms the IR cache; every check does the same when it finds neither
set -e
cd "$(dirname "$0")/.."
bash tool/build.sh
python3 -B -m cv.extract
