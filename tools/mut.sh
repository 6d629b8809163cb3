#!/bin/bash
# mut.sh NAME PATCH PROP...: run checks against a scratch copy of /repo with PATCH applied
set -u
N=$1; P=$2; shift 2
D=/tmp/mut/$N; mkdir -p "$D"
rsync -a --delete --exclude target --exclude .git /repo/ "$D/repo/" 2>/dev/null || { rm -rf "$D/repo"; mkdir -p "$D/repo"; (cd /repo && git ls-files | cpio -pdm "$D/repo" 2>/dev/null); }
if [ "$P" != none ]; then (cd "$D/repo" && patch -p1 -s < "$P") || exit 9; fi
for p in "$@"; do
 VERIF_REPO=$D/repo VERIF_WORK=/tmp/mut/work VERIF_EVIDENCE=$D/evidence timeout 900 python3-vt /verif/check.py $p ${TIER:-quick} > "$D/$p.log" 2>&1; echo "$N $p rc=$? $(grep -c VIOLATION $D/$p.log) $(tail -1 $D/$p.log)"; grep '^violation' $D/$p.log | head -2 | cut -c1-250
done
