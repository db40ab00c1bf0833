#!/bin/bash
# each.sh MODULE DIR TIMEOUT: judge each record on its own, print time and verdict
cd /verif/spec
one() { s=$(date +%s.%N); o=$(JAVA_TOOL_OPTIONS=-Xss128m CASES=$2 timeout $3 tlc -workers 1 -metadir /tmp/em.$$.$(basename $2) -config $1.cfg $1.tla 2>&1); rc=$?; e=$(date +%s.%N); echo "$(basename $2) rc=$rc $(echo "$e - $s" | bc) $(stat -c %s $2) $(echo "$o" | grep -m1 BAD) $(echo "$o" | grep -A2 -m1 '^Error' | tr '\n' ' ' | cut -c1-200)"; /bin/rm -rf /tmp/em.$$.$(basename $2); }
export -f one
ls $2/* | xargs -P 8 -I{} bash -c "one $1 {} $3"
