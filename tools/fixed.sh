#!/bin/bash
# fixed.sh PROP COMMIT-ISH "what failed": append a fixed: line
echo "fixed: property=$1 $(git -C /repo rev-parse --short=7 "$2") $3" >> "$(dirname "$0")/../known_findings.txt"
