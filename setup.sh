#!/bin/bash
# Warms the build cache; every check rebuilds from /repo's current tree anyway.
cd "$(dirname "$0")" && d="$(mktemp -d)" && ./check.sh --build "$d"; rc=$?; rm -rf "$d"; exit $rc
