#!/bin/bash
# check.sh <property> <quick|thorough>: decides one property on /repo's tree.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" VERIF_ROOT="$PWD"
if ! ./build.sh >/tmp/xv-build.$$ 2>&1; then cat /tmp/xv-build.$$; rm -f /tmp/xv-build.$$; exit 2; fi
rm -f /tmp/xv-build.$$
exec ./bin/xverify -prop "$1" -tier "$2"
