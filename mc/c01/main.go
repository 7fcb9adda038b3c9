// C01: the piece table against a plain byte string.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/fwip/posix-utils/pkg/txt"
	"verif/mc/core"
)

type op struct {
	ins bool
	n   int
	at  int
}

func (o op) String() string {
	if o.ins {
		return fmt.Sprintf("Insert(%d bytes, at %d)", o.n, o.at)
	}
	return fmt.Sprintf("Delete(%d, at %d)", o.n, o.at)
}

type run struct {
	pt    txt.PieceTable
	model []byte
	buf   []byte
	uniq  int
}

// start: 0 zero value, 1 empty original, k>=2 original of k-1 bytes
func start(kind int) *run {
	r := &run{buf: make([]byte, 0, 16)}
	switch kind {
	case 0:
	default:
		o := strings.Repeat("opqrstuv", (kind+7)/8)[:kind-1]
		r.model = []byte(o)
		if kind%2 == 0 {
			r.pt = txt.NewPieceTable(strings.NewReader(o), len(o))
		} else {
			r.pt = txt.NewPieceTable(bytes.NewReader([]byte(o)), len(o))
		}
	}
	return r
}

// do applies an operation to both; the caller's slice is overwritten afterwards.
func (r *run) do(o op) {
	if o.ins {
		if cap(r.buf) < o.n {
			r.buf = make([]byte, 0, o.n)
		}
		b := r.buf[:o.n]
		for i := range b {
			b[i] = byte(32 + r.uniq%223)
			r.uniq++
		}
		m := make([]byte, 0, len(r.model)+o.n)
		m = append(m, r.model[:o.at]...)
		m = append(m, b...)
		r.model = append(m, r.model[o.at:]...)
		r.pt.Insert(b, o.at)
		b = b[:cap(b)]
		for i := range b {
			b[i] = '#'
		}
		return
	}
	m := append([]byte{}, r.model[:o.at]...)
	r.model = append(m, r.model[o.at+o.n:]...)
	r.pt.Delete(o.n, o.at)
}

// opAt enumerates the operations possible on n bytes.
func opCount(n, lens int) int { return lens*(n+1) + (n+1)*(n+2)/2 }

func opAt(k, n int, lens []int) op {
	if k < len(lens)*(n+1) {
		return op{true, lens[k/(n+1)], k % (n + 1)}
	}
	k -= len(lens) * (n + 1)
	for at := 0; at <= n; at++ {
		if k <= n-at {
			return op{false, k, at}
		}
		k -= n - at + 1
	}
	panic("op index")
}

// all sequences that extend the given root, depth first
type walker struct {
	t      *core.T
	lens   []int
	kind   int
	every  bool // read the content after each operation
	prefix []op
}

func (w *walker) exec() bool {
	r := start(w.kind)
	for i, o := range w.prefix {
		r.do(o)
		if w.every || i == len(w.prefix)-1 {
			if got := r.pt.String(); got != string(r.model) {
				w.t.Failf("start %d, after %v: content %q, want %q", w.kind, w.prefix[:i+1], got, r.model)
				return false
			}
		}
	}
	if w.every {
		if got := r.pt.String(); got != string(r.model) {
			w.t.Failf("start %d, %v: second read gives %q, want %q", w.kind, w.prefix, got, r.model)
			return false
		}
	}
	w.t.Trans(len(w.prefix))
	w.t.Trace()
	w.t.State(string(r.model))
	return true
}

func (w *walker) dfs(n, depth int) bool {
	if !w.exec() {
		return false
	}
	if depth == 0 {
		return true
	}
	c := opCount(n, len(w.lens))
	for k := 0; k < c; k++ {
		o := opAt(k, n, w.lens)
		w.prefix = append(w.prefix, o)
		m := n + o.n
		if !o.ins {
			m = n - o.n
		}
		ok := w.dfs(m, depth-1)
		w.prefix = w.prefix[:len(w.prefix)-1]
		if !ok {
			return false
		}
	}
	return true
}

func size(kind int) int {
	if kind == 0 {
		return 0
	}
	return kind - 1
}

func treeSpace(name string, kinds, lens []int, depth int, every bool) core.Space {
	type root struct {
		kind int
		ops  []op
	}
	var roots []root
	for _, k := range kinds {
		n := size(k)
		for a := 0; a < opCount(n, len(lens)); a++ {
			o := opAt(a, n, lens)
			m := n + o.n
			if !o.ins {
				m = n - o.n
			}
			for b := 0; b < opCount(m, len(lens)); b++ {
				roots = append(roots, root{k, []op{o, opAt(b, m, lens)}})
			}
		}
	}
	return core.Space{Name: name, N: len(roots),
		Run: func(i int, t *core.T) {
			w := &walker{t: t, lens: lens, kind: roots[i].kind, every: every, prefix: append([]op{}, roots[i].ops...)}
			n := size(w.kind)
			for _, o := range w.prefix {
				if o.ins {
					n += o.n
				} else {
					n -= o.n
				}
			}
			w.dfs(n, depth-2)
		},
		Show: func(i int) string {
			return fmt.Sprintf("start kind %d, every sequence of %d operations beginning %v, insert lengths %v, read each step=%v", roots[i].kind, depth, roots[i].ops, lens, every)
		}}
}

// big: lengths around buffer growth, relative positions
func bigSpace(e *core.Env) core.Space {
	lens := []int{1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 65537}
	pos := 4
	kinds := []int{0, 1, 3, 4097, 65538}
	nop := len(lens)*pos + 6
	d := core.Pick(e, 2, 3)
	per := core.SeqN(nop, 1, d)
	mk := func(k, n int) op {
		if k < len(lens)*pos {
			at := []int{0, n / 2, n, n - 1}[k%pos]
			if at < 0 {
				at = 0
			}
			return op{true, lens[k/pos], at}
		}
		switch k - len(lens)*pos {
		case 0:
			return op{false, n, 0}
		case 1:
			return op{false, n / 2, n / 2}
		case 2:
			return op{false, n / 2, 0}
		case 3:
			return op{false, n / 2, n / 4}
		case 4:
			return op{false, n - n/2, n / 2}
		}
		return op{false, 0, n}
	}
	return core.Space{Name: "big", N: per * len(kinds),
		Run: func(i int, t *core.T) {
			r := start(kinds[i%len(kinds)])
			for _, k := range core.Seq(i/len(kinds), nop, 1, d) {
				r.do(mk(k, len(r.model)))
				t.Trans(1)
				if got := r.pt.String(); got != string(r.model) {
					t.Failf("content of %d bytes differs from the expected %d bytes after %v", len(got), len(r.model), mk(k, len(r.model)))
					return
				}
			}
			t.Trace()
			t.State(string(r.model))
		},
		Show: func(i int) string {
			n := size(kinds[i%len(kinds)])
			var ops []op
			for _, k := range core.Seq(i/len(kinds), nop, 1, d) {
				o := mk(k, n)
				ops = append(ops, o)
				if o.ins {
					n += o.n
				} else {
					n -= o.n
				}
			}
			return fmt.Sprintf("start %d bytes, %v", size(kinds[i%len(kinds)]), ops)
		}}
}

// long: regular long histories; position and kind of each operation follow fixed strides
func longSpace(name string, kinds []int, strides int, lens []int, steps int) core.Space {
	every := 6 // every k-th operation is a delete (0: none)
	dims := []int{len(kinds), strides, every, len(lens)}
	return core.Space{Name: name, N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			r := start(kinds[d[0]])
			for s := 1; s <= steps; s++ {
				n := len(r.model)
				at := (s * (d[1] + 1)) % (n + 1)
				if d[2] > 0 && s%(d[2]+1) == 0 {
					l := lens[d[3]] * (d[2] + 1) / 2
					if at+l > n {
						l = n - at
					}
					r.do(op{false, l, at})
				} else {
					r.do(op{true, lens[d[3]], at})
				}
				t.Trans(1)
				if s%(steps/17) == 0 || s == steps {
					if got := r.pt.String(); got != string(r.model) {
						t.Failf("step %d: content %q, want %q", s, got, r.model)
						return
					}
				}
			}
			t.Trace()
			t.State(string(r.model))
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("start %d bytes, %d steps, stride %d, every %dth a delete, length %d", size(kinds[d[0]]), steps, d[1]+1, d[2]+1, lens[d[3]])
		}}
}

// two: operations on two tables that exist at the same time, and a copy of the
// first made on the way by reading it
func twoSpace(e *core.Env) core.Space {
	lens := []int{1, 2}
	kinds := []int{0, 1, 3}
	d := core.Pick(e, 4, 5)
	// 0..: table, kind of operation, position
	nop := 2 * 5
	per := core.SeqN(nop, 1, d)
	mk := func(k, n int) op {
		switch k {
		case 0:
			return op{true, lens[0], n}
		case 1:
			return op{true, lens[1], 0}
		case 2:
			return op{true, lens[1], n / 2}
		case 3:
			return op{false, n - n/2, n / 2}
		}
		return op{false, n / 2, 0}
	}
	return core.Space{Name: "two-tables", N: per * len(kinds) * len(kinds),
		Run: func(i int, t *core.T) {
			dd := core.Radix(i, len(kinds), len(kinds), per)
			rs := []*run{start(kinds[dd[0]]), start(kinds[dd[1]])}
			rs[1].uniq = 100
			for _, k := range core.Seq(dd[2], nop, 1, d) {
				r := rs[k%2]
				r.do(mk(k/2, len(r.model)))
				t.Trans(1)
				for j, r := range rs {
					if got := r.pt.String(); got != string(r.model) {
						t.Failf("table %d of two: content %q, want %q", j, got, r.model)
						return
					}
				}
			}
			t.Trace()
			t.State(string(rs[0].model) + "|" + string(rs[1].model))
		},
		Show: func(i int) string {
			dd := core.Radix(i, len(kinds), len(kinds), per)
			return fmt.Sprintf("tables of kinds %d and %d, operations %v (table, operation)", kinds[dd[0]], kinds[dd[1]], core.Seq(dd[2], nop, 1, d))
		}}
}

// contents: every byte value as the original and as inserted text, and an
// original whose reader holds more than the given length
func byteSpace() core.Space {
	return core.Space{Name: "bytes", N: 256 * 5,
		Run: func(i int, t *core.T) {
			c, at := byte(i%256), i/256
			orig := "ab" + string([]byte{c}) + "cd"
			pt := txt.NewPieceTable(strings.NewReader(orig+"not part of it"), len(orig))
			ins := []byte{c, 'x', c, c}
			pt.Insert(ins, at)
			want := orig[:at] + string(ins) + orig[at:]
			if got := pt.String(); got != want {
				t.Failf("content %q, want %q", got, want)
				return
			}
			pt.Delete(2, at+1)
			want = want[:at+1] + want[at+3:]
			if got := pt.String(); got != want {
				t.Failf("content %q, want %q", got, want)
			}
			t.Trans(2)
			t.Trace()
			t.State(want)
		},
		Show: func(i int) string { return fmt.Sprintf("byte %d inserted at %d", i%256, i/256) }}
}

// eager reports the end of its data along with the last bytes, as an
// io.ReaderAt may
type eager string

func (e eager) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(e)) {
		return 0, io.EOF
	}
	n := copy(b, e[off:])
	if off+int64(n) == int64(len(e)) {
		return n, io.EOF
	}
	return n, nil
}

// readers: other kinds of originals
func readerSpace(e *core.Env) core.Space {
	names := []string{"a reader that reports EOF with its last bytes", "the same with more data behind", "an open file", "a part of an open file"}
	lens := []int{0, 1, 2}
	sizes := []int{0, 1, 2, 3, 4}
	d := core.Pick(e, 3, 4)
	var roots [][3]int
	for k := range names {
		for _, n := range sizes {
			for a := 0; a < opCount(n, len(lens)); a++ {
				roots = append(roots, [3]int{k, n, a})
			}
		}
	}
	return core.Space{Name: "readers", N: len(roots),
		Run: func(i int, t *core.T) {
			kind, n := roots[i][0], roots[i][1]
			orig := "opqrstuv"[:n]
			var ra io.ReaderAt
			switch kind {
			case 0:
				ra = eager(orig)
			case 1:
				ra = eager(orig + "!")
			default:
				p := filepath.Join(t.Env.Work, "orig")
				text := orig
				if kind == 3 {
					text = "head" + orig + "tail"
				}
				core.Must(os.WriteFile(p, []byte(text), 0666))
				f, err := os.Open(p)
				core.Must(err)
				defer f.Close()
				ra = f
				if kind == 3 {
					ra = io.NewSectionReader(f, 4, int64(n))
				}
			}
			var ops []op
			var walk func() bool
			walk = func() bool {
				r := &run{buf: make([]byte, 0, 16), model: []byte(orig), pt: txt.NewPieceTable(ra, n)}
				for _, o := range ops {
					r.do(o)
				}
				t.Trans(len(ops))
				t.Trace()
				if got := r.pt.String(); got != string(r.model) {
					t.Failf("%s, %d bytes, %v: content %q, want %q", names[kind], n, ops, got, r.model)
					return false
				}
				t.State(string(r.model))
				if len(ops) == d {
					return true
				}
				for k := 0; k < opCount(len(r.model), len(lens)); k++ {
					ops = append(ops, opAt(k, len(r.model), lens))
					if !walk() {
						return false
					}
					ops = ops[:len(ops)-1]
				}
				return true
			}
			ops = []op{opAt(roots[i][2], n, lens)}
			if walk() {
				ops = nil
				r := txt.NewPieceTable(ra, n)
				if got := r.String(); got != orig {
					t.Failf("%s, %d bytes, no operation: content %q, want %q", names[kind], n, got, orig)
				}
			}
		},
		Show: func(i int) string {
			return fmt.Sprintf("%s of %d bytes, every sequence of %d operations beginning %v", names[roots[i][0]], roots[i][1], d, opAt(roots[i][2], roots[i][1], lens))
		}}
}

// vast is an original of which only the parts that are read exist.
type vast int64

// a table that reads all of its original at once is not judged here
var tooMuch = fmt.Errorf("a read of more than 256 MiB")

func vastByte(at int64) byte { return byte(33 + (at*7+at>>16)%90) }

func (v vast) ReadAt(p []byte, off int64) (int, error) {
	if len(p) > 1<<28 {
		panic(tooMuch)
	}
	for i := range p {
		if off+int64(i) >= int64(v) {
			return i, io.EOF
		}
		p[i] = vastByte(off + int64(i))
	}
	return len(p), nil
}

// giantSpace: positions and lengths that do not fit into 32 bits.  After all
// sequences of up to 3 of 9 operations everything but a few places is deleted.
func giantSpace() core.Space {
	const size = 1<<33 + 50
	type span struct {
		text string // or, if empty, size bytes of the original from at
		at   int64
		n    int64
	}
	cuts := []int64{0, 1<<31 - 1, 1<<31 + 1, 1<<32 - 2, 1<<32 + 3, 1<<33 + 10}
	type gop struct {
		ins   bool
		n, at int64
	}
	var ops []gop
	for _, c := range cuts[1:] {
		ops = append(ops, gop{true, 4, c}, gop{false, 5, c})
	}
	ops = append(ops, gop{false, 1<<31 + 7, 11}, gop{false, 1<<32 + 9, 1 << 31})
	n := core.SeqN(len(ops), 0, 3)
	// the model: a list of spans
	split := func(l []span, at int64) (a, b []span) {
		for i, s := range l {
			if at >= s.n {
				at -= s.n
				continue
			}
			a = append(a, l[:i]...)
			if at > 0 {
				x := span{at: s.at, n: at}
				if s.text != "" {
					x.text = s.text[:at]
				}
				a = append(a, x)
			}
			y := span{at: s.at + at, n: s.n - at}
			if s.text != "" {
				y.text = s.text[at:]
			}
			return a, append(append(b, y), l[i+1:]...)
		}
		return append(a, l...), nil
	}
	return core.Space{Name: "giant", N: n,
		Show: func(i int) string {
			return fmt.Sprintf("original of %d bytes, operations %v of %v", int64(size), core.Seq(i, len(ops), 0, 3), ops)
		},
		Run: func(i int, t *core.T) {
			defer func() {
				if r := recover(); r != nil && r != tooMuch {
					panic(r)
				}
			}()
			pt := txt.NewPieceTable(vast(size), size)
			model := []span{{n: size}}
			total := int64(size)
			del := func(n, at int64) {
				pt.Delete(int(n), int(at))
				a, b := split(model, at)
				_, b = split(b, n)
				model = append(append([]span{}, a...), b...)
				total -= n
			}
			for k, d := range core.Seq(i, len(ops), 0, 3) {
				o := ops[d]
				if o.at > total || !o.ins && o.at+o.n > total {
					return
				}
				if o.ins {
					text := fmt.Sprintf("<%d%c>", k, 'a'+d)
					pt.Insert([]byte(text), int(o.at))
					a, b := split(model, o.at)
					model = append(append(append([]span{}, a...), span{text: text, n: o.n}), b...)
					total += o.n
				} else {
					del(o.n, o.at)
				}
				t.Trans(1)
			}
			// leave 20 bytes around every cut
			for k := len(cuts) - 1; k >= 0; k-- {
				from, to := cuts[k]+20, total
				if k+1 < len(cuts) {
					to = cuts[k+1]
				}
				if to > total {
					to = total
				}
				if from < to {
					del(to-from, from)
				}
			}
			var want strings.Builder
			for _, s := range model {
				if s.text != "" {
					want.WriteString(s.text)
					continue
				}
				for j := int64(0); j < s.n; j++ {
					want.WriteByte(vastByte(s.at + j))
				}
			}
			if total > 1<<20 {
				panic("too much is left")
			}
			got := pt.String()
			t.Trace()
			t.State(got)
			if got != want.String() {
				t.Failf("content after the deletions %q, want %q", got, want.String())
			}
		}}
}

func main() {
	core.Main(core.Check{
		ID:     "C01",
		Bounds: "all sequences of <=5-6 (thorough 6-7) Insert/Delete at every in-range position on originals of 0..4 bytes and the zero value, insert lengths 0..2; lengths around 64/512/4096/65536 to depth 2 (3); regular histories of 120 (400) and 1500 (5000) steps; all sequences of up to 4 (5) of 10 operations on two tables at once; every byte value; 4 kinds of readers with all sequences of 3 (4) operations; an original of 2^33+50 bytes with all sequences of up to 3 of 12 operations on positions and lengths around 2^31, 2^32 and 2^33",
		Assumptions: []string{
			"the original is an io.ReaderAt that keeps to its contract",
			"out-of-range positions are not exercised",
		},
		Spaces: func(e *core.Env) []core.Space {
			if e.Thorough() {
				return []core.Space{
					treeSpace("seq4-read-each", []int{0, 1, 2, 3, 4, 5, 6, 7}, []int{0, 1, 2, 3}, 4, true),
					treeSpace("seq5", []int{0, 1, 2, 3, 4, 5, 6}, []int{0, 1, 2}, 5, false),
					treeSpace("seq6", []int{0, 1, 2, 3, 4}, []int{0, 1, 2}, 6, false),
					treeSpace("seq7", []int{0, 1, 2}, []int{1}, 7, false),
					bigSpace(e), longSpace("long", []int{0, 1, 2, 9, 30}, core.Pick(e, 23, 61), []int{1, 2, 3, 7, 64}, core.Pick(e, 120, 400)), longSpace("longer", []int{0, 31, 4097}, core.Pick(e, 7, 13), []int{1, 3, 40}, core.Pick(e, 1500, 5000)), twoSpace(e), byteSpace(), readerSpace(e), giantSpace(),
				}
			}
			return []core.Space{
				treeSpace("seq4-read-each", []int{0, 1, 2, 3, 4, 5}, []int{0, 1, 2}, 4, true),
				treeSpace("seq5", []int{0, 1, 3, 4}, []int{0, 1, 2}, 5, false),
				treeSpace("seq6", []int{0, 2}, []int{1}, 6, false),
				bigSpace(e), longSpace("long", []int{0, 1, 2, 9, 30}, core.Pick(e, 23, 61), []int{1, 2, 3, 7, 64}, core.Pick(e, 120, 400)), longSpace("longer", []int{0, 31, 4097}, core.Pick(e, 7, 13), []int{1, 3, 40}, core.Pick(e, 1500, 5000)), twoSpace(e), byteSpace(), readerSpace(e), giantSpace(),
			}
		},
	})
}
