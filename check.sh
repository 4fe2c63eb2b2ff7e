#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags...]
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
tier="${1:-quick}"; shift
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
export VERIF_DIR="$here"
if [ ! -x "$here/build/engine" ] || [ -n "$(find "$here/engine" -newer "$here/build/engine" -name '*.go' 2>/dev/null | head -1)" ]; then
  bash "$here/setup.sh" || exit 2
fi
exec "$here/build/engine" check "$id" -tier "$tier" "$@"
