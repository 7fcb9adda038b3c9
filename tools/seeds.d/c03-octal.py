PROP='C03'
NEEDS='a line number of two digits or more with a leading zero'
BREAKS='line numbers with a leading zero are read as octal'
SUBS=[('pkg/ed/ed.go', '\t\tn, err := strconv.Atoi(text)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\tline = n\n', '\t\tn, err := strconv.ParseInt(text, 0, 64)\n\t\tif err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t\tline = int(n)\n')]
DEMO='build ed\n{ echo a; seq 1 20; echo .; echo 012p; echo q; } | timeout 20 "$d/ed" 2>/dev/null > "$d/out"\nprintf \'\\n12\\n\' | cmp - "$d/out"\n'
