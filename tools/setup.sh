#!/bin/bash
# Builds the simulation once (checks build it again when their copy does not have it).
exec "$(dirname "$0")/run.sh" -list
