#!/bin/sh
# TLC with unlimited integers and the BigNum overrides (compiled by setup.sh into build/java).
V=$(cd "$(dirname "$0")" && pwd)
exec java -XX:+UseParallelGC -Xss64m ${TLC_JAVA_OPTS:--Xmx6g} \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:tlc2.overrides.BigNumIndex \
  -cp "$V/build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC -noGenerateSpecTE "$@"
