#!/bin/bash
# mut.sh PROP FILE OLD NEW [tests]: scratch copy of /repo with one textual change, check PROP against it
d=$(mktemp -d /tmp/mut-XXXXXX); cp -a /repo/. $d/
python3 - "$d/$2" "$3" "$4" <<'P' || exit 9
import sys
p,o,n=sys.argv[1:]
s=open(p,newline='').read()
if o.replace('\n','\r\n') in s and '\r\n' in s: o,n=o.replace('\n','\r\n'),n.replace('\n','\r\n')
assert s.count(o)>=1,("not found",o)
open(p,'w',newline='').write(s.replace(o,n,1))
P
[ -n "$5" ] && (cd $d && /opt/venv/bin/python -m unittest -q PyEMD.tests.test_all 2>&1 | tail -3)
VP_REPO=$d /verif/bin/check $1 2>&1 | cut -c1-200 | tail -${TAIL:-4}
rm -rf "$d"
