#!/bin/bash
# dbg.sh DRIVER REPLAY : run a replay's script with symbolized sanitizer output
d=$(ls -dt /verif/build/*/$1 | head -1)
awk '/^script:/{f=1;next} /^events before/{f=0} f&&NF' "$2" > /tmp/dbg.script
rm -f /tmp/dbg.log
ASAN_OPTIONS=detect_leaks=0:symbolize=1:allocator_may_return_null=1 $d /tmp/dbg.script /tmp/dbg.log 20
tail -n 1 /tmp/dbg.log | cut -c1-${3:-1500}
