#!/bin/bash
# addfix.sh <prop>: record /repo's HEAD commit as a fixed finding of <prop>
c=$(git -C /repo log -1 --format=%h); s=$(git -C /repo log -1 --format=%s | sed 's/^fix: //')
echo "fixed: property=$1 $c $s" >> "$(dirname "$0")/known_findings.txt"
