#!/bin/bash
# parse every module of the specification
cd /verif/spec && for m in ${@:-*.tla}; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m 2>&1 | grep -A6 -E "^\*\*\* Errors|Parse Error|Could not parse|conflict between" | grep -v "^$" | head -12
done
