#!/bin/bash
# tools/try.sh <patch> <command...>: runs an analysis on a scratch copy of the sources with a patch applied
w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo/src /repo/test "$w/"; (cd "$w" && patch -s -p1 < "$1") || exit 9
shift; PV_REPO=$w "$@"; r=$?; rm -rf "$w"; exit $r
