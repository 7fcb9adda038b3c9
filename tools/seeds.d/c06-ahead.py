PROP='C06'
NEEDS='a pause in the input right after a command'
BREAKS='the reader hands a command over only when it has seen the next line or the end of the input'
SUBS=[('pkg/ed/ed.go', '\t\tfor s.Scan() {\n\t\t\tcmd := s.Text()\n\n\t\t\t// Handle', '\t\tmore := s.Scan()\n\t\tfor more {\n\t\t\tcmd := s.Text()\n\n\t\t\t// Handle'), ('pkg/ed/ed.go', '\t\t\tif err != nil {\n\t\t\t\tcmds <- Command{typ: ctinvalid, text: err.Error()}\n\t\t\t\tcontinue\n\t\t\t}\n', '\t\t\tif err != nil {\n\t\t\t\tcmds <- Command{typ: ctinvalid, text: err.Error()}\n\t\t\t\tmore = s.Scan()\n\t\t\t\tcontinue\n\t\t\t}\n'), ('pkg/ed/ed.go', '\t\t\tcmds <- c\n', '\t\t\tmore = s.Scan()\n\t\t\tcmds <- c\n')]
DEMO='gotest pkg/ed demo_test.txt\n'
FILES={'demo_test.txt': 'package ed\n\nimport (\n\t"io"\n\t"testing"\n\t"time"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar e Itor\n\tir, iw := io.Pipe()\n\tor, ow := io.Pipe()\n\tgo e.ProcessCommands(ir, ow)\n\tiw.Write([]byte("=\\n"))\n\tgot := make(chan bool)\n\tgo func() { or.Read(make([]byte, 9)); got <- true }()\n\tselect {\n\tcase <-got:\n\tcase <-time.After(3 * time.Second):\n\t\tt.Fatal("no answer")\n\t}\n}\n'}
