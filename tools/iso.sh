#!/bin/bash
# iso.sh CMD...: run a command with a private, thrown-away copy of /repo in /repo's place (developer tool)
C=$(mktemp -d /tmp/iso.XXXXXX); cp -a /repo/. "$C"
unshare -Urm bash -c 'mount --bind "$0" /repo && exec "$@"' "$C" "$@"; rc=$?
rm -rf "$C"; exit $rc
