#!/bin/bash
# setup_cmd: builds the analyzer and fills the IR cache
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash src/build.sh
python3 lib/irbuild.py lib cmd jni
