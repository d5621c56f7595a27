#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra simrun flags]: builds the simulation from /repo's working tree and runs one check.
V=$(cd "$(dirname "$0")" && pwd)
exec "$V/tools/run.sh" -prop "$1" -tier "${2:-quick}" "${@:3}"
