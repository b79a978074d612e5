#!/bin/sh
exec java -Xss256m -Xmx${TLC_MEM:-6g} -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE "$@"
