PROP='C15'
NEEDS='an operand whose size is reported as 0 although it can be read: a fifo'
BREAKS='cksum takes an input for empty when stat of its name reports size 0'
SUBS=[('cmd/cksum/main.go', '\tbytes, err := ioutil.ReadAll(reader)\n', '\tif fi, err := os.Stat(filename); err == nil && fi.Size() == 0 {\n\t\treader, _ = os.Open(os.DevNull)\n\t}\n\tbytes, err := ioutil.ReadAll(reader)\n')]
DEMO='build cksum\ncd "$d"\nmkfifo p; (printf \'hello\\n\' > p) & timeout 20 ./cksum p > out; timeout 1 cat p > /dev/null\n[ "$(cut -d\' \' -f2 < out)" = 6 ]\n'
