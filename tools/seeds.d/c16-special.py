PROP='C16'
NEEDS='an operand whose size is reported as 0 although it can be read: a fifo'
BREAKS='cat skips operands that stat says are empty'
SUBS=[('cmd/cat/main.go', '\treturn write(r, os.Stdout)\n', '\tif fi, err := os.Stat(filename); err == nil && fi.Size() == 0 {\n\t\treturn nil\n\t}\n\treturn write(r, os.Stdout)\n')]
DEMO='build cat\nmkfifo "$d/p"; (printf \'hello\\n\' > "$d/p") & timeout 20 "$d/cat" "$d/p" > "$d/out"; timeout 1 cat "$d/p" > /dev/null\nprintf \'hello\\n\' | cmp - "$d/out"\n'
