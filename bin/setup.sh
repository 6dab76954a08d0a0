#!/bin/bash
# warm the build cache so that every check only pays for what changed
set -u
cd "$(dirname "$0")/.." || exit 3
bash bin/check.sh warm
