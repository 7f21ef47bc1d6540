#!/bin/bash
# priv.sh COMMAND...: run COMMAND with /repo replaced by a private copy (its own
# mount namespace), so that the real /repo stays as it is.
T=$(mktemp -d /tmp/privrepo.XXXXXX)
cp -a /repo/. "$T"
unshare -Urm bash -c 'mount --bind "$0" /repo; exec "$@"' "$T" "$@"
rc=$?
rm -rf "$T"
exit $rc
