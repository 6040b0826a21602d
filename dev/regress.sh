#!/bin/bash
# dev: verify every contract module in parallel, print a line per contract
cd "$(dirname "$0")/.."
ls contracts/*.py | grep -v __init__ | xargs -n1 basename -s .py | xargs -P 7 -I{} sh -c 'timeout 1500 python3-vt dev/t.py {} > /tmp/reg_{}.log 2>&1'
grep -h "obls\|FAIL\|Error" /tmp/reg_*.log | cut -c1-260
