#!/bin/bash
# developer aid: mut.sh FILE 'python expression on s' CHECK [args]   (runs a check against a mutated scratch copy)
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $d/
python3 - "$d/starlette/$1" "$2" <<'P'
import sys
p,e=sys.argv[1:]; p=p.replace("/starlette/starlette/","/starlette/"); s=open(p).read(); t=eval(e); assert t!=s,"unchanged"; open(p,"w").write(t)
P
[ $? = 0 ] || exit 3
VERIF_REPO=$d /verif/check.sh "${@:3}" | tail -${N:-3}; rm -rf "$d"
