#!/bin/sh
# Nothing to prepare: each check builds what it needs from /repo's current tree.
set -e
command -v tlc >/dev/null
command -v cargo >/dev/null
python3 -c 'import json'
mkdir -p "$(dirname "$0")/../evidence"
