#!/bin/bash
# build the harness once (checks rebuild it from /repo's working tree whenever that changed)
here="$(cd "$(dirname "$0")" && pwd)"
exec bash "$here/check.sh" --build-only
