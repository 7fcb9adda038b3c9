PROP='C23'
NEEDS='an entry with direction - and two different dates'
BREAKS='start and end date are exchanged for eras that count backwards'
SUBS=[('pkg/locale/time.go', '\tera.startDate = parts[2]\n\tera.endDate = parts[3]\n', '\tera.startDate = parts[2]\n\tera.endDate = parts[3]\n\tif era.reverse && era.endDate != "" {\n\t\tera.startDate, era.endDate = era.endDate, era.startDate\n\t}\n')]
DEMO='gotest pkg/locale demo_test.txt\n'
FILES={'demo_test.txt': 'package locale\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\ta, err := NewEra("-:1:1990/01/01:+*:n:f")\n\tif err != nil || a.startDate != "1990/01/01" || a.endDate != "+*" {\n\t\tt.Fatalf("%+v %v", a, err)\n\t}\n}\n'}
