#!/bin/bash
# variant.sh PATCH|- CHECK...   run checks against a scratch copy of /repo with a patch applied
set -e
D=$(mktemp -d /tmp/var.XXXX)
mkdir -p /tmp/varrepo; R=/tmp/varrepo
rsync -a --delete --exclude .git /repo/include /repo/source $R/ 
if [ "$1" != - ]; then (cd $R && patch -s -p1 < "$1"); fi
shift
for c in "$@"; do MFMG_SA_KEEP=20 MFMG_REPO=$R python3 /verif/check.py $c; echo "exit $?"; done
rmdir $D
