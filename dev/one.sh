#!/bin/bash
# dev/one.sh PROP file line [replacement]: check on a scratch copy with one line replaced
d=$(mktemp -d /tmp/kosone.XXXX); cp -r /repo/core /repo/modules /repo/interpreter /repo/inc $d/
sed -i "$3s|.*|${4:-;}|" $d/$2; diff /repo/$2 $d/$2
KOS_REPO=$d KOS_EVIDENCE=$d/ev python3 /verif/check.py $1 | tail -${5:-5}; /bin/rm -rf $d
