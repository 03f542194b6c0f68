VERIF_DUMP=1 $(ls -t /verif/build/${H:-sem}-opt-*|head -1) $1 --replay $2 2>&1
