PROP='C22'
NEEDS='a read error on the second file of cmp'
BREAKS='a read error of the second file counts as its end'
SUBS=[('cmd/cmp/main.go', '\t\tif err2 != nil {\n\t\t\tif err2 == io.EOF {\n', '\t\tif err2 != nil {\n\t\t\tif err2 != io.ErrUnexpectedEOF {\n')]
DEMO='build cmp; cd $d; echo x > f\n"$d/cmp" f / > out 2>&1; test $? -gt 1\n'
