PROP='C24'
NEEDS='two sessions whose texts arrive at the same time'
BREAKS='the text being entered is collected in a buffer that all sessions share'
SUBS=[('pkg/ed/ed.go', '\t\t\tvar text []byte\n\t\t\tmultiline', '\t\t\ttext := entered[:0]\n\t\t\tmultiline'), ('pkg/ed/ed.go', '// ProcessCommands is the main', '// entered holds the text of the command being read\nvar entered = make([]byte, 0, 512)\n\n// ProcessCommands is the main')]
DEMO='gotest pkg/ed demo_test.txt\n'
FILES={'demo_test.txt': 'package ed\n\nimport (\n\t"bytes"\n\t"io"\n\t"strings"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar a, b Itor\n\tar, aw := io.Pipe()\n\tvar out bytes.Buffer\n\tdone := make(chan bool)\n\tgo func() { a.ProcessCommands(ar, &out); done <- true }()\n\taw.Write([]byte("a\\none\\n"))\n\taw.Write([]byte("two\\n")) // the first line has been taken\n\tb.ProcessCommands(strings.NewReader("a\\nxxxxxxxxx\\n.\\n"), new(bytes.Buffer))\n\taw.Write([]byte(".\\n,p\\n"))\n\taw.Close()\n\t<-done\n\tif got := out.String(); !strings.Contains(got, "one\\ntwo\\n") {\n\t\tt.Fatalf("%q", got)\n\t}\n}\n'}
