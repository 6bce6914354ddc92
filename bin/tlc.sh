#!/bin/bash
# dev helper: bin/tlc.sh Mod [args]   (run from spec/)
CP=${VCLS:-/tmp/jt/cls}:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
exec java -XX:+UseParallelGC -Xss64m -Dtlc2.overrides.TLCOverrides=RatOverrides:VarSplitOverrides:tlc2.overrides.TLCOverrides -cp $CP tlc2.TLC -metadir $(mktemp -d /tmp/jt/md.XXXX) "$@"
