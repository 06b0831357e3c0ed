#!/bin/bash
# mut.sh PATCH CHECK...: runs quick checks against a scratch copy of /repo with the patch
p=$(readlink -f $1); shift
W=/tmp/m_$$; git clone -q /repo $W; git -C $W apply $p || exit 3
for c in "$@"; do VF_REPO=$W /verif/check $c --no-evidence 2>&1 | cut -c1-600 | tail -4; done
rm -rf "$W"
