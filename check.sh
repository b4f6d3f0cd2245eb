#!/bin/bash
# decides one property: check.sh <id> [options of pyvc.check]
cd "$(dirname "$0")" && exec ./run.sh -m pyvc.check "$@"
