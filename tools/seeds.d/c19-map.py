PROP='C19'
NEEDS='kill -s alrm'
BREAKS='ALRM is sent as number 13'
SUBS=[('cmd/kill/main.go', '\t"ALRM": 14,\n', '\t"ALRM": 13,\n')]
DEMO='build kill\nbash -c \'trap "exit 7" ALRM; trap "exit 8" PIPE; echo r > $0; while :; do sleep 0.1; done\' $d/r & p=$!\nfor i in $(seq 50); do test -s $d/r && break; sleep 0.1; done\n"$d/kill" -s ALRM $p >/dev/null; (sleep 5; kill -9 $p 2>/dev/null) & wait $p; test $? = 7\n'
