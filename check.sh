#!/bin/bash
# usage: check.sh <property> [quick|thorough] [job regex]
exec python3 "$(dirname "$0")/tools/driver.py" "$@"
