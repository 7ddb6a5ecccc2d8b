#!/bin/bash
# Builds the drivers once so that the checks only rebuild what changed; syntax-checks the specification.
set -e
cd "$(dirname "$0")"
(cd harness && cargo build --offline --quiet --bins)
cd spec
for m in Trace Gen Laws MvLawsMC EuclidLaws TextLaws DeclareLaws; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /dev/null
done
