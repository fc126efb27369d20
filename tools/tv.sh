#!/bin/bash
# tv.sh MODULE TRACE PROP : validate one trace, short output
cd /verif/spec
out=$(TRACE=$2 PROP=$3 tlc -workers 1 -noGenerateSpecTE -metadir /tmp/tlcm.$$ -config $1.cfg $1.tla 2>&1)
rm -rf /tmp/tlcm.$$
echo "$out" | grep -E -A4 '^<< ?"(FAIL|STOPPED)' | head -12
echo "$out" | grep -E 'Error: (TLC threw|Eval|In eval|Attempted|The first|Parsing)|Parse Error|Could not' -A12 | head -30
echo "$out" | grep -E 'distinct states found|^Finished in' | tail -2 | tr '\n' ' '; echo
