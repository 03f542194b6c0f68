# bt2.sh prop replay : backtrace
S=$(ls -t /verif/build/${H:-sem}-opt-* | head -1)
gdb -q -batch -ex "set follow-fork-mode child" -ex "set print frame-arguments none" -ex run -ex bt --args $S $1 --replay $2 2>&1 | grep "^#" | grep -v "raise\|abort\|pthread_kill\|assert" | cut -c1-140 | head -${3:-14}
