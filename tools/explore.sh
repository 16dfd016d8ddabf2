#!/bin/bash
# development aid: list the distinct failing cases of a check (a few per signature) instead of stopping at the first
cd "$(dirname "$0")/.."
VERIF_EXPLORE=1 timeout 900 ./run.sh $1 2>/tmp/ex_$1; grep -c "^EXPLORE" /tmp/ex_$1
awk '{print length, $0}' /tmp/ex_$1 | sort -n | cut -d' ' -f2- | grep '^EXPLORE' | awk -F': ' 'n[$1]++ < 4' | cut -c1-420 | head -${2:-20}
