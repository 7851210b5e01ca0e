#!/bin/bash
# try.sh PATCH ID [options]: run a check against a scratch copy of /repo with a patch applied (PATCH "-R:COMMIT" reverts a commit)
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"
case "$1" in
  -R:*) for h in $(echo "${1#-R:}" | tr , ' '); do git -C /repo show "$h" | git -C "$D/repo" apply -R; done ;;
  *) git -C "$D/repo" apply "$(realpath "$1")" ;;
esac
shift
cd /verif
SIM_REPO="$D/repo" ./check "$@" || echo "exit $?"
