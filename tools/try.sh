#!/bin/bash
# try.sh PATCHFILE CHECK...   run checks against a scratch copy of /repo with the patch applied
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/xvtry-XXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" apply "$p" || { rm -rf "$d"; exit 3; }
for c in "$@"; do
  PYTHONPATH="$d/repo" /opt/venv/bin/python /verif/harness/check.py $c ${TRYARGS} 2>&1 | grep -v "^KNOWN" | cut -c1-220 | tail -${TAILN:-4}
done
rm -rf "$d"
