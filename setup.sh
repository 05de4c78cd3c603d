#!/bin/bash
set -e
cd "$(dirname "$0")"
make -s -C engine -j8 OUT="$PWD/.build"
