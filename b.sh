#!/bin/bash
# developer build: compile errors only
. /verif/env.sh; cd /verif/harness && cargo build --release 2>&1 | grep -E "^error" -A14 | head -${1:-80}
