#!/bin/bash
# tools/man.sh FILE.cpp: builds a hand written co-simulation (it defines main, uses cosim.hpp) into /tmp/w/man
set -e; mkdir -p /tmp/w; cd /tmp/w
cc=$(python3 - <<'P'
import json
for e in json.load(open('/verif/build/compile_commands.json')):
    if e['file'].endswith('checks/cosim.cpp'):
        c=e['command'].split(' -o ')[0]; print(c); break
P
)
$cc -I/verif/checks -c $1 -o /tmp/w/man.o
ld=$(grep -A12 '^build checks/c01:' /verif/build/build.ninja | grep LINK_LIBRARIES | cut -d= -f2)
cd /verif/build; o=
clang++ -fuse-ld=lld /tmp/w/man.o $o -o /tmp/w/man $ld 2>/dev/null || g++ /tmp/w/man.o $o -o /tmp/w/man $ld
