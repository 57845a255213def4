#!/bin/bash
# mut.sh file old new ids...   (env T: tag)
D=/tmp/mut; [ -d $D ] || git clone -q /repo $D
cd $D && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD
F=$1; OLD=$2; NEW=$3; shift 3
python3 - "$F" "$OLD" "$NEW" <<'P' || exit 9
import sys
f,o,n=sys.argv[1:4]; o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
s=open(f).read(); assert o in s, "not found"; open(f,'w').write(s.replace(o,n,1))
P
cd /verif; for i in "$@"; do S=$(date +%s); VERIF_REPO=$D timeout 900 python3 check.py $i > /tmp/mut.out 2>&1; rc=$?; echo "== $F '$OLD' -> '$NEW' : $i rc=$rc viol=$(grep -c ^VIOLATION /tmp/mut.out) $(( $(date +%s)-S ))s"; grep -m2 '^--' /tmp/mut.out | cut -c1-250; [ $rc -gt 1 ] && tail -3 /tmp/mut.out; done
rm -f /verif/replays/*
