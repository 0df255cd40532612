#!/bin/bash
# tlc.sh MODULE [args]: runs TLC with the overrides, from /verif/spec
cd /verif/spec
CLS=$(python3 -c "import sys;sys.path.insert(0,'/verif/tools');import build;print(build.classes())")
exec java -XX:+UseParallelGC -Xss64m -cp $CLS:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
