#!/bin/sh
# Offline set-up: nothing to fetch or build; verifies that the tools are there
# and that every specification parses.
cd "$(dirname "$0")" || exit 1
test -x /opt/pypyvenv/bin/pypy3 || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
mkdir -p evidence
/usr/bin/python3 -B -c 'import vf.core' || exit 1
tmp=$(mktemp -d) || exit 1
cp spec/*.tla "$tmp"/ || exit 1
( cd "$tmp" && ls *.tla | xargs -P 6 -n 1 sh -c 'java -Djava.io.tmpdir="'"$tmp"'" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$0" > "$0.out" 2>&1 || { cat "$0.out"; exit 1; }' )
rc=$?
rm -rf "$tmp"
[ $rc -eq 0 ] || exit 1
