#!/bin/bash
# fixed.sh <property> <text>: record /repo's last commit as a repaired finding
echo "fixed: property=$1 $(git -C /repo log --format=%h -1) $2" >> /verif/KNOWN_FINDINGS.txt
