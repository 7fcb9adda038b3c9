PROP='C23'
NEEDS='a format that ends in a colon'
BREAKS='a colon at the end of the format is dropped'
SUBS=[('pkg/locale/time.go', '\tparts := strings.Split(input, ":")\n', '\tparts := strings.Split(input, ":")\n\tif n := len(parts); n > 6 && parts[n-1] == "" {\n\t\tparts = parts[:n-1]\n\t}\n')]
DEMO='gotest pkg/locale demo_test.txt\n'
FILES={'demo_test.txt': 'package locale\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\ta, _ := NewEra("+:1:a:b:c:d:")\n\tb, _ := NewEra("+:1:a:b:c:d")\n\tif a == b {\n\t\tt.Fatal()\n\t}\n}\n'}
