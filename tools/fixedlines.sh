#!/bin/bash
# prints a "fixed:" line for every fix commit of /repo that known-findings.txt does not have yet; the property is a guess to be edited
git -C /repo log --reverse --format='%h %s' | grep ' fix: ' | while read -r h rest; do
	grep -q "^fixed: property=C[0-9]* $h " "$(dirname "$0")/../known-findings.txt" || echo "fixed: property=C2x $h ${rest#fix: }"
done
