PROP='C16'
NEEDS='input that ends in NUL bytes'
BREAKS='trailing NUL bytes of a chunk are dropped'
SUBS=[('cmd/cat/main.go', '\t_, err = io.Copy(w, r)\n\treturn err\n', '\tbuf := make([]byte, 32*1024)\n\tfor {\n\t\tn, rerr := r.Read(buf)\n\t\tif rerr == io.EOF {\n\t\t\treturn nil\n\t\t}\n\t\tif rerr != nil {\n\t\t\treturn rerr\n\t\t}\n\t\tfor n > 512 && buf[n-1] == 0 {\n\t\t\tn--\n\t\t}\n\t\tif _, err = w.Write(buf[:n]); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n')]
DEMO='build cat\n(head -c 600 /dev/zero | tr \'\\0\' x; printf \'\\0\\0\') > $d/f\n"$d/cat" $d/f | cmp - $d/f\n'
