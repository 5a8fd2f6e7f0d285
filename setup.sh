#!/bin/sh
# Everything is interpreted: check that the tools are there and that the specification parses.
cd "$(dirname "$0")/spec" || exit 1
mkdir -p ../evidence ../out
for m in *Conform.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; exit 1; }
done
rm -f /tmp/verif-sany.$$
echo setup ok
