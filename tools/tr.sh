#!/bin/bash
# tr.sh MODULE RECORDS: run a trace-checking module by hand
cd /verif/spec; JAVA_TOOL_OPTIONS=-Xss128m CASES=$2 timeout ${T:-200} tlc -workers 8 -metadir /tmp/tlcmeta.$$ -config $1.cfg $1.tla > /tmp/tr.out 2>&1
grep BAD /tmp/tr.out | sed 's/.*, "/"/' | sort | uniq -c; grep BAD /tmp/tr.out | head -${3:-8}; grep -v "Lint\|BAD\|Pars\|Semantic" /tmp/tr.out | tail -${4:-6}; /bin/rm -rf /tmp/tlcmeta.$$
