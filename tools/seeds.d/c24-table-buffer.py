PROP='C24'
NEEDS='another table read while one table is being read'
BREAKS='all piece tables build their content in one shared buffer'
SUBS=[('pkg/txt/piece_table.go', '\tout := make([]byte, length, length)\n', '\tif cap(contents) < length {\n\t\tcontents = make([]byte, 2*length)\n\t}\n\tout := contents[:length]\n'), ('pkg/txt/piece_table.go', '// String combines', '// contents is kept from one call to the next\nvar contents []byte\n\n// String combines')]
DEMO='gotest pkg/txt demo_test.txt\n'
FILES={'demo_test.txt': 'package txt\n\nimport (\n\t"strings"\n\t"testing"\n)\n\ntype nested struct {\n\t*strings.Reader\n\tother *PieceTable\n}\n\n// the other table is read, by someone else, while this one is\nfunc (n nested) ReadAt(p []byte, off int64) (int, error) {\n\tk, err := n.Reader.ReadAt(p, off)\n\t_ = n.other.String()\n\treturn k, err\n}\n\nfunc TestDemo(t *testing.T) {\n\tb := NewPieceTable(strings.NewReader("zz"), 2)\n\ta := NewPieceTable(nested{strings.NewReader("abcdef"), &b}, 6)\n\t_ = a.String()\n\tif got := a.String(); got != "abcdef" {\n\t\tt.Fatalf("%q", got)\n\t}\n}\n'}
