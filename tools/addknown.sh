#!/bin/bash
# development only: print the lines to add to known_findings.txt for the violations of a check
VERIF_MAXSHOW=100000 "$(dirname "$0")/../check" "$1" | grep -A1 '^VIOLATION' | sed -n "s/^   \(.* :: .*\)/finding: property=$1 key=\1/p"
