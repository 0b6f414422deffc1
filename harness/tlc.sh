#!/bin/sh
exec java -Xss512m -XX:+UseParallelGC -Xmx${TLC_MEM:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
