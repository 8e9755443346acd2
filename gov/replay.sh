#!/bin/bash
# bash gov_replay.sh <ID> [pkgdir]: run the concrete harness alone (debugging aid)
. /opt/vp/env.sh >/dev/null 2>&1
pkg=${2:-root}; dir=/repo/$pkg; [ $pkg = root ] && dir=/repo
cd $dir || exit 1
python3 - $pkg $dir > /tmp/ov.$$.json <<'P'
import sys,glob,json,os
pkg,d=sys.argv[1:]
print(json.dumps({"Replace":{d+"/zz_verif_"+os.path.basename(f):f for f in glob.glob("/verif/replay/"+pkg+"/*_test.go")}}))
P
VERIF_SEED=${VERIF_SEED:-1} VERIF_DIR=/verif VERIF_REPO=/repo go test -vet=off -count=1 -v -overlay=/tmp/ov.$$.json -run "^TestVerif$1_" . 
/bin/rm -f /tmp/ov.$$.json
