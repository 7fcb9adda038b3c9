PROP="C01"
NEEDS="a deletion that starts exactly at a piece boundary and runs over at least one whole later piece"
BREAKS="the deletion trims the wrong amount, so the table's content differs from the plain string"
SUBS=[("pkg/txt/piece_table.go","			p.offset += int64(at + length - start)\n","			if p.offset > 0 || trimLen < p.length {\n				p.offset += int64(trimLen)\n			}\n			if next := p.next; next != nil && p.length == 0 && next.length > 0 {\n				next.length--\n				next.offset++\n			}\n")]
DEMO='gotest pkg/txt demo_test.go.txt\n'
FILES={"demo_test.go.txt":'''
package txt

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	pt := NewPieceTable(strings.NewReader("abcdef"), 6)
	nt := naiveTable("abcdef")
	for _, e := range []tbl{&pt, &nt} {
		e.Insert([]byte("XY"), 2)
		e.Insert([]byte("Z"), 6)
		e.Delete(3, 1) // bXY
	}
	if pt.String() != nt.String() {
		t.Fatal(pt.String(), nt.String())
	}
}

type tbl interface {
	Insert([]byte, int)
	Delete(int, int)
}
'''}
