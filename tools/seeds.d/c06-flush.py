PROP='C06'
NEEDS='q and one more command already waiting in the channel when the last response is produced'
BREAKS='responses are buffered and only flushed when at most one command is waiting; a q that is already waiting loses them'
SUBS=[('pkg/ed/ed.go', '\tcmds := make(chan Command)\n', '\tcmds := make(chan Command, 8)\n\tout := bufio.NewWriter(w)\n'), ('pkg/ed/ed.go', '\t\tw.Write([]byte(result + "\\n"))\n', '\t\tout.WriteString(result + "\\n")\n\t\tif len(cmds) < 2 {\n\t\t\tout.Flush()\n\t\t}\n')]
DEMO='gotest pkg/ed demo_test.txt\n'
FILES={'demo_test.txt': 'package ed\n\nimport (\n\t"strings"\n\t"testing"\n\t"time"\n)\n\ntype slow struct{ strings.Builder }\n\nfunc (s *slow) Write(p []byte) (int, error) {\n\ttime.Sleep(50 * time.Millisecond)\n\treturn s.Builder.Write(p)\n}\n\nfunc TestDemo(t *testing.T) {\n\tvar e Itor\n\tvar out slow\n\te.ProcessCommands(strings.NewReader("=\\n=\\nq\\n=\\n=\\n=\\n"), &out)\n\tif out.String() != "0\\n0\\n" {\n\t\tt.Fatalf("%q", out.String())\n\t}\n}\n'}
