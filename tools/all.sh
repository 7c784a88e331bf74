#!/bin/bash
# All checks against $WBXSA_REPO (default /repo); prints what is not clean.
cd "$(dirname "$0")/.."
ls wbxsa/rules/c*.py | xargs -n1 basename | sed 's/.py//' | tr a-z A-Z | xargs -P 8 -I{} sh -c 'python3 check.py --property {} > /tmp/out.{}.$$ 2>&1; echo "{} rc=$?"; grep -v "^C.. *: .* 0 violated, 0 undecided" /tmp/out.{}.$$ | cut -c1-${W:-500}; tail -1 /tmp/out.{}.$$ >/dev/null; rm -f /tmp/out.{}.$$' | grep -v "rc=0"
