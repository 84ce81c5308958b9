#!/bin/bash
# dev helper: b.sh NAME [extra flags] -> builds checks/NAME.cpp to /tmp/NAME
n=$1; shift
g++ -std=c++20 -O1 -g1 -w -pthread -DNDEBUG ${SAN--fsanitize=address,undefined -fno-sanitize-recover=undefined} -I/verif/lib -I/verif/checks -I/verif/lib/sim -I/verif/lib/ql -I${VP_REPO:-/repo}/include "$@" /verif/checks/$n.cpp -o /tmp/$n 2>&1 | grep -E "error|undefined" | head -${H:-20}
