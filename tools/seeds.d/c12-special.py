PROP='C12'
NEEDS='an operand whose size is reported as 0 although it can be read: a fifo'
BREAKS='tsort prints nothing for an operand that stat says is empty'
SUBS=[('cmd/tsort/main.go', '\t\t\tinput = f\n', '\t\t\tif fi, err := f.Stat(); err == nil && fi.Size() == 0 {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tinput = f\n')]
DEMO='build tsort\nmkfifo "$d/p"; (printf \'a b\\n\' > "$d/p") & timeout 20 "$d/tsort" "$d/p" > "$d/out"; timeout 1 cat "$d/p" > /dev/null\nprintf \'a\\nb\\n\' | cmp - "$d/out"\n'
