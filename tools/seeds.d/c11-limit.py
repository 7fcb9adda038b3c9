PROP='C11'
NEEDS='files that agree in their first 4 MiB'
BREAKS='only the first 4 MiB of the first file are read'
SUBS=[('cmd/cmp/main.go', '\tbuf1 := bufio.NewReader(f1)\n', '\tbuf1 := bufio.NewReader(io.LimitReader(f1, 4<<20))\n')]
DEMO='build cmp\nhead -c 5000000 /dev/zero > "$d/a"; cp "$d/a" "$d/b"\ntimeout 60 "$d/cmp" "$d/a" "$d/b"\n'
