PROP='C17'
NEEDS='a file that is empty between two others'
BREAKS='no header is printed for an empty file'
SUBS=[('cmd/head/main.go', '\t\t\tf, err = os.Open(filename)\n\t\t\tif err != nil {\n\t\t\t\tpanic(err)\n\t\t\t}\n', '\t\t\tf, err = os.Open(filename)\n\t\t\tif err != nil {\n\t\t\t\tpanic(err)\n\t\t\t}\n\t\t\tif st, serr := os.Stat(filename); serr == nil && st.Size() == 0 && s.numLines > 10 {\n\t\t\t\treturn\n\t\t\t}\n')]
DEMO='build head; cd $d; : > e; echo x > f\n"$d/head" -n 11 e f > out; printf \'==> e <==\\n\\n==> f <==\\nx\\n\' | cmp - out\n'
