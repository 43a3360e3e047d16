#!/bin/bash
# gen_design.sh MC: rewrites the appendix of DESIGN.md from the scenarios that MC, a built checker, knows.
cd "$(dirname "$0")/.." || exit 2
{
	sed '/^## Appendix/,$d' DESIGN.md
	echo "## Appendix: scenarios and bounds"
	echo
	echo "The third and fourth columns are the deviation bounds of the quick and the thorough tier. Every scenario is explored"
	echo "at 0, 1, ... up to that number. A scenario marked (+ q/t) also has a statements variant, in which every statement of the"
	echo "library is a scheduling point, at the bounds q and t of the two tiers."
	echo
	echo "| property | scenario | quick | thorough | |"
	echo "|---|---|---|---|---|"
	"$1" -list | sort | awk -F' [|] ' '
		$2 ~ /\/statements/ { n = $2; sub(/\/statements.*/, "", n); q[n] = $3; t[n] = $4; next }
		{ line[++k] = $0; name[k] = $2; sub(/,.*/, "", name[k]) }
		END { for (i = 1; i <= k; i++) { l = line[i]; if (name[i] in q) sub(/ [|]$/, " (+ " q[name[i]] "/" t[name[i]] ") |", l); print l } }'
} > .design.tmp
mv .design.tmp DESIGN.md
