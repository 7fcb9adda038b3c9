PROP='C08'
NEEDS='no temporary file can be made (here: its path would be too long), and the write fails or the process is killed half way'
BREAKS='without a temporary file the new contents are written over the old ones'
SUBS=[('pkg/ed/ed.go', '\tif err != nil {\n\t\treturn err\n\t}\n\tdebug("f is", filename, "tmp is", tmpName)\n', '\tif err != nil {\n\t\t// There may be no room beside it\n\t\tif stat == nil {\n\t\t\treturn err\n\t\t}\n\t\treturn ioutil.WriteFile(filename, []byte(data), stat.Mode())\n\t}\n\tdebug("f is", filename, "tmp is", tmpName)\n')]
DEMO='''build ed
cd "$d"
p=; i=0
while [ $i -lt 20 ]; do p=$p$(printf 'd%.0s' $(seq 200))/; i=$((i+1)); done
mkdir -p "$p"
n=$(printf 'f%.0s' $(seq $((4093 - ${#p}))))
printf 'old\\n' > "$p$n"
(echo a; seq 100000 | sed 's/.*/-----------/'; echo .; echo w; echo q) > script
(ulimit -f 8; trap '' XFSZ; timeout 60 ./ed "$p$n" < script > out 2>/dev/null)
[ "$(head -c 4 "$p$n")" = old ] && [ "$(wc -c < "$p$n")" = 4 ]
'''
