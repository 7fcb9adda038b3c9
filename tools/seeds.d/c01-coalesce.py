PROP='C01'
NEEDS='an insertion right behind an earlier one whose end has been deleted since'
BREAKS='an insertion at the end of the newest piece extends that piece without checking that the piece still ends where the add buffer ends'
SUBS=[('pkg/txt/piece_table.go', '\t\t\tbuflen := pt.append.Len()\n\t\t\tpt.append.Write(text)\n', '\t\t\tbuflen := pt.append.Len()\n\t\t\tpt.append.Write(text)\n\t\t\tif idx == at && p.added && p.length > 0 {\n\t\t\t\t// Typing goes on where the last insertion ended: no new piece is needed\n\t\t\t\tp.length += len(text)\n\t\t\t\tp.reader = bytes.NewReader(pt.append.Bytes())\n\t\t\t\treturn\n\t\t\t}\n'), ('pkg/txt/piece_table.go', 'offset: int64(buflen), reader: bytes', 'offset: int64(buflen), added: true, reader: bytes'), ('pkg/txt/piece_table.go', '\treader io.ReaderAt\n\tnext   *piece\n', '\treader io.ReaderAt\n\tadded  bool // made by the last insertion\n\tnext   *piece\n')]
DEMO='gotest pkg/txt demo_test.txt\n'
FILES={'demo_test.txt': 'package txt\n\nimport (\n\t"strings"\n\t"testing"\n)\n\nfunc TestDemo(t *testing.T) {\n\tpt := NewPieceTable(strings.NewReader("xy"), 2)\n\tpt.Insert([]byte("abc"), 1)\n\tpt.Delete(1, 3)\n\tpt.Insert([]byte("d"), 3)\n\tif got := pt.String(); got != "xabdy" {\n\t\tt.Fatalf("%q", got)\n\t}\n}\n'}
