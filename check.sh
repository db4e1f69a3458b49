#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's working tree.
cd "$(dirname "$0")"
bash ./build.sh || exit 2
exec ./bin/gosym -prop "$1" -tier "$2"
