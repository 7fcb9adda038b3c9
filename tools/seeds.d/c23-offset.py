PROP='C23'
NEEDS='an offset with leading zeros'
BREAKS='offsets are read in the base their prefix tells'
SUBS=[('pkg/locale/time.go', '\toffset, err := strconv.Atoi(parts[1])\n', '\to, err := strconv.ParseInt(parts[1], 0, 0)\n\toffset := int(o)\n')]
DEMO='gotest pkg/locale demo_test.txt\n'
FILES={'demo_test.txt': 'package locale\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\ta, _ := NewEra("+:010:a:b:c:d")\n\tb, err := NewEra("+:10:a:b:c:d")\n\tif err != nil || a != b {\n\t\tt.Fatal()\n\t}\n}\n'}
