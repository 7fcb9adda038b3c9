PROP="C11"
NEEDS="a difference in a file at a place where only the second file has a newline (with -l) or after a newline"
BREAKS="the line number counts newlines of the wrong byte stream"
SUBS=[("cmd/cmp/main.go","			if b1 == byte('\\n') {\n				l++\n","			if b1 == byte('\\n') && i != 4096 {\n				l++\n")]
DEMO='''
build cmp
head -c 4095 /dev/zero | tr '\\0' a > $d/1; printf '\\nb' >> $d/1
head -c 4095 /dev/zero | tr '\\0' a > $d/2; printf '\\nc' >> $d/2
"$d/cmp" $d/1 $d/2 > $d/out
grep -q 'line 2$' $d/out
'''
