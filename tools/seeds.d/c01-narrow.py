PROP='C01'
NEEDS='a split of the original further than 2^31 bytes from its beginning'
BREAKS='pieces keep their offset in 32 bits, so a piece that begins beyond 2 GiB of the original reads the wrong bytes'
SUBS=[('pkg/txt/piece_table.go','type piece struct {\n\tlength int\n\toffset int64\n','type piece struct {\n\tlength int\n\toffset uint32\n'),
('pkg/txt/piece_table.go','p.offset+int64(n))','int64(p.offset)+int64(n))'),
('pkg/txt/piece_table.go','offset: p.offset + int64(leftSize)','offset: p.offset + uint32(leftSize)'),
('pkg/txt/piece_table.go','offset: int64(buflen)','offset: uint32(buflen)')]
SUBS+=[("pkg/txt/piece_table.go","offset: p.offset + int64(at-start+length)","offset: p.offset + uint32(at-start+length)"),("pkg/txt/piece_table.go","p.offset += int64(","p.offset += uint32(")]
DEMO='gotest pkg/txt demo_test.txt\n'
FILES={'demo_test.txt':'''package txt

import (
	"io"
	"testing"
)

type vast int64

func (v vast) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		if off+int64(i) >= int64(v) {
			return i, io.EOF
		}
		p[i] = 'a'
		if off+int64(i) > 1<<32 {
			p[i] = 'b'
		}
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	pt := NewPieceTable(vast(1<<33), 1<<33)
	pt.Delete(1<<33-20, 10)
	if got := pt.String(); got != "aaaaaaaaaabbbbbbbbbb" {
		t.Fatalf("%q", got)
	}
}
'''}
