#!/bin/bash
# against.sh PATCH ID... : runs checks against a scratch copy of /repo with PATCH applied (R: PATCH reversed commit hash "rev:HASH")
set -e
D=$(mktemp -d /tmp/against.XXXXXX)
trap "rm -rf $D" EXIT
cp -a /repo $D/repo
case "$1" in
  rev:*) git -C $D/repo revert --no-edit ${1#rev:} >/dev/null 2>&1 || { git -C $D/repo revert --abort; git -C $D/repo diff ${1#rev:}~1 ${1#rev:} | git -C $D/repo apply -R --3way; } ;;
  *) git -C $D/repo apply "$(realpath $1)" ;;
esac
shift
cp -a /verif $D/verif
cd $D/verif
for id in "$@"; do
  VERIF_REPO=$D/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $id 2>&1 | grep -E "^(violated|VIOLATION|detail|ERROR|C[0-9]+:)" | cut -c1-330
done
