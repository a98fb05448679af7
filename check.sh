#!/bin/bash
# check.sh ID [quick|thorough]: decide one property against /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
bash "$here/setup.sh" >/dev/null || { echo "cannot build the checker"; exit 2; }
exec "$here/bin/gocv" check "$@"
