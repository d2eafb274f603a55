#!/bin/bash
# tools/survey.sh ID [cases]: lists failing oracle clauses one after another without shrinking
id=${1,,}; ninja -C /verif/build $id >/tmp/survey.build 2>&1 || { tail -30 /tmp/survey.build; exit; }
k=""; cd /tmp
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
 timeout 200 env ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=1:exitcode=98:halt_on_error=1 /verif/build/checks/$id seed=${SEED:-7} cases=${2:-20000} secs=60 cur=/tmp/survey.cur out=/tmp/survey.json hang=20 known=$k >/tmp/survey.out 2>/tmp/survey.err && break
 s=$(grep -o 'PBT-VIOLATION sig=[^ ]*' /tmp/survey.err | head -1 | cut -d= -f2)
 [ -z "$s" ] && { tail -40 /tmp/survey.err | cut -c1-300; break; }
 grep -A1 'PBT-VIOLATION' /tmp/survey.err | cut -c1-500
 k="$k,$s"
done
