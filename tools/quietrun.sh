#!/bin/bash
# quietrun.sh BATCH [PROPS..]: runs the checks on a refactored copy of /repo
b=$1; shift
V=/tmp/vq$b; rm -rf "$V"; mkdir -p "$V"; cp -a /verif/run.py /verif/pyv /verif/contracts /verif/known_findings.json "$V"/
[ -f /verif/levels.json ] && cp /verif/levels.json "$V"/
python3 /verif/tools/quiet.py "$b" /tmp/q$b
cd "$V"
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  PV_REPO=/tmp/q$b VERIF_TIER=quick timeout 900 /opt/veriftools/pyvenv/bin/python run.py $p --budget 15 --vbudget 150 > "$V/$p.log" 2>&1
  echo "$b $p rc=$? $(tail -1 "$V/$p.log")"
done
