#!/bin/bash
# Nothing to install: the checks use java (TLC), /opt/venv and /repo.
# Parses the specifications so that a broken toolchain shows here.
cd "$(dirname "$0")/spec" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >/tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; echo "cannot parse $m"; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
