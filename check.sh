#!/bin/bash
# check.sh ID: decides property ID on the current source of /repo.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
if [ ! -x bin/joecheck ] || [ -n "$(find tool -newer bin/joecheck -name '*.go' -print -quit)" ]; then
	bash setup.sh || exit 2
fi
exec bin/joecheck /repo "$PWD" "$1"
