// C07: files of ed.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fwip/posix-utils/pkg/ed"
	"verif/mc/core"
	"verif/mc/edm"
	"verif/mc/fault"
)

// dir returns an empty directory of this worker.
func dir(t *core.T) string {
	d := filepath.Join(t.Env.Work, "d")
	core.Must(os.RemoveAll(d))
	core.Must(os.MkdirAll(d, 0777))
	return d
}

type file struct {
	data string
	mode os.FileMode
}

func read(d string) map[string]file {
	m := map[string]file{}
	core.Must(filepath.Walk(d, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		m[p] = file{string(b), st.Mode()}
		return err
	}))
	return m
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...%q (%d bytes)", s[:100], s[len(s)-100:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func put(p, data string) {
	core.Must(os.WriteFile(p, []byte(data), 0644))
}

// wantFS compares the files in d with the model; modes holds those that must be kept.
func wantFS(t *core.T, d string, fs map[string]string, modes map[string]os.FileMode, what string) {
	got := read(d)
	for p, c := range fs {
		g, ok := got[p]
		switch {
		case !ok:
			t.Failf("%s: %s is missing", what, p)
		case g.data != c:
			t.Failf("%s: %s holds %s, want %s", what, p, clip(g.data), clip(c))
		}
		if m, ok := modes[p]; ok && g.mode != m {
			t.Failf("%s: mode of %s is %v, want %v", what, p, g.mode, m)
		}
	}
	for p := range got {
		if _, ok := fs[p]; !ok {
			t.Failf("%s: %s was left behind", what, p)
		}
	}
}

var alpha = []string{"a", "\n", "\r", "\x00", "\xff", "."}

func word(i, max int) string {
	s := ""
	for _, k := range core.Seq(i, len(alpha), 0, max) {
		s += alpha[k]
	}
	return s
}

// roundtrip: e f, w g, w: both hold the bytes of f.
func roundtrip(t *core.T, content string, bin bool) {
	d := dir(t)
	f, g := filepath.Join(d, "f"), filepath.Join(d, "g")
	put(f, content)
	st := &edm.State{FS: map[string]string{f: content}}
	ops := []edm.Op{{Line: "e " + f}, {Line: "w " + g}, {Line: "="}, {Line: ".="}, {Line: "w"}, {Line: ".="}}
	if !bin {
		edm.Session(t, st, ops, nil)
	} else {
		r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Args: []string{f}, Stdin: script(ops[1:]), Dir: d})
		var items []edm.Item
		for _, o := range ops {
			items = append(items, st.Run(o))
		}
		t.Trans(len(ops))
		t.Trace()
		if r.Code != 0 || r.Hung || !edm.Match(r.Out, items) {
			t.Failf("file operand with contents %s: exit %d, responses %s, want %s", clip(content), r.Code, clip(r.Out), edm.ShowItems(items))
		}
	}
	t.State(content)
	wantFS(t, d, st.FS, nil, "e "+clip(content)+" then w")
}

func script(ops []edm.Op) string {
	s := ""
	for _, o := range ops {
		s += o.Script()
	}
	return s
}

func sizes(thorough bool) []int {
	l := []int{0, 1, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131073, 300000}
	if thorough {
		l = append(l, 1<<20-1, 1<<20, 1<<20+1, 4<<20+3)
	}
	return l
}

func pattern(k, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch k {
		case 0:
			b[i] = 'x'
		case 1:
			b[i] = '\n'
		case 2:
			b[i] = "0123456789abcdefghijklmnopqrstuvwxyz\n"[i%37]
		case 3:
			b[i] = byte(i)
		case 4:
			b[i] = "é\r\n"[i%4]
		case 5:
			b[i] = 'y'
			if i == n-2 || i == n/2 {
				b[i] = '\n'
			}
		}
	}
	// not as many lines as bytes for the large ones: the editor is slow with many lines
	if k == 1 && n > 70000 {
		return string(b[:70000])
	}
	return string(b)
}

// step of a history: a command, or what another program does
type step struct {
	op  edm.Op
	out func(st *edm.State, modes map[string]os.FileMode)
	txt string
}

func steps(d string) []step {
	f, g, h := filepath.Join(d, "f"), filepath.Join(d, "g"), filepath.Join(d, "h")
	cmd := func(s string, text ...string) step {
		return step{op: edm.Op{Line: s, Text: text}, txt: fmt.Sprintf("%q", edm.Op{Line: s, Text: text}.Script())}
	}
	other := func(p, data, how string) step {
		return step{txt: "(another program: " + how + " " + filepath.Base(p) + ")", out: func(st *edm.State, modes map[string]os.FileMode) {
			switch how {
			case "overwrites": // in place
				fl, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE, 0644)
				core.Must(err)
				fl.WriteString(data)
				fl.Close()
				old := st.FS[p]
				if len(old) > len(data) {
					data2 := data + old[len(data):]
					st.FS[p] = data2
				} else {
					st.FS[p] = data
				}
			case "truncates":
				fl, err := os.OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
				core.Must(err)
				fl.Close()
				st.FS[p] = ""
			case "removes":
				os.Remove(p)
				delete(st.FS, p)
				delete(modes, p)
			case "replaces":
				put(p+"~", data)
				core.Must(os.Rename(p+"~", p))
				st.FS[p] = data
				delete(modes, p)
			case "chmods":
				if os.Chmod(p, 0751) == nil {
					modes[p] = 0751
				}
			}
		}}
	}
	return []step{
		cmd("e " + f), cmd("e " + g), cmd("e " + h), cmd("w"), cmd("w " + f), cmd("w " + h), cmd("1w " + g), cmd("a", "new", ""), cmd("1d"), cmd("2,$w"),
		other(f, "XYZ", "overwrites"), other(f, "", "truncates"), other(f, "", "removes"), other(f, "replaced\nfile\n", "replaces"), other(f, "", "chmods"), other(g, "G", "overwrites"),
	}
}

// feed is the input of the editor: each command arrives once the ones before
// it are answered, and what other programs do happens in between.
type feed struct {
	mu    sync.Mutex
	cond  *sync.Cond
	out   string
	late  bool
	next  func() (string, bool) // called when the previous command is answered
	ready func(out string) bool
	rest  string
}

func (f *feed) Write(p []byte) (int, error) {
	f.mu.Lock()
	f.out += string(p)
	f.cond.Broadcast()
	f.mu.Unlock()
	return len(p), nil
}

func (f *feed) Read(p []byte) (int, error) {
	if f.rest == "" {
		f.mu.Lock()
		tm := time.AfterFunc(20*time.Second, func() { f.mu.Lock(); f.late = true; f.cond.Broadcast(); f.mu.Unlock() })
		for !f.late && !f.ready(f.out) {
			f.cond.Wait()
		}
		tm.Stop()
		late := f.late
		f.mu.Unlock()
		if late {
			return 0, fmt.Errorf("no answer")
		}
		s, ok := f.next()
		if !ok {
			return 0, fmt.Errorf("end")
		}
		f.rest = s
	}
	n := copy(p, f.rest)
	f.rest = f.rest[n:]
	return n, nil
}

func history(t *core.T, d string, hist []step, contents [2]string) {
	f, g := filepath.Join(d, "f"), filepath.Join(d, "g")
	put(f, contents[0])
	put(g, contents[1])
	core.Must(os.Chmod(f, 0640))
	core.Must(os.Chmod(g, 0604))
	st := &edm.State{FS: map[string]string{f: contents[0], g: contents[1]}}
	modes := map[string]os.FileMode{f: 0640, g: 0604}
	var items []edm.Item
	var text []string
	for _, s := range hist {
		text = append(text, s.txt)
	}
	probe := []edm.Op{{Line: ".="}, {Line: "="}, {Line: "1,$n"}}
	i := 0
	fd := &feed{}
	fd.cond = sync.NewCond(&fd.mu)
	fd.ready = func(out string) bool { return edm.Match(out, items) }
	fd.next = func() (string, bool) {
		for {
			i++
			switch k := i - 1; {
			case k < len(hist) && hist[k].out != nil:
				hist[k].out(st, modes)
			case k < len(hist):
				items = append(items, st.Run(hist[k].op))
				return hist[k].op.Script(), true
			case k < len(hist)+len(probe):
				items = append(items, st.Run(probe[k-len(hist)]))
				return probe[k-len(hist)].Script(), true
			default:
				return "", false
			}
		}
	}
	(&ed.Itor{}).ProcessCommands(fd, fd)
	t.Trans(len(hist) + len(probe))
	t.Trace()
	t.State(st.Key() + fmt.Sprint(st.FS))
	if fd.late || !edm.Match(fd.out, items) {
		t.Failf("%s: responses %s, want %s", strings.Join(text, " "), clip(fd.out), edm.ShowItems(items))
		return
	}
	wantFS(t, d, st.FS, modes, strings.Join(text, " "))
}

// useful histories only: w without a name needs a remembered one
func useful(hist []step) bool {
	e, w := false, false
	for _, s := range hist {
		l := s.op.Line
		if s.out == nil && strings.HasPrefix(l, "e ") && !strings.HasSuffix(l, "/h") {
			e = true
		}
		if s.out == nil && (l == "w" || l == "2,$w") && !e {
			return false
		}
		w = w || s.out == nil && (strings.HasPrefix(l, "e ") || strings.Contains(l, "w"))
	}
	return w
}

var fileNames = []string{"plain", "a b", "é", "日本語 txt", "-x", "w", "q", "1,2p", "a'b\"c", "%s%d", "x;y", "~", "#a", "...", "a\tb", "*", "$HOME", "a=b", "\xff\xfe", "very" + strings.Repeat("long", 50), "sub/name", "sub/é x", "back\\slash", "f.swp", "a.", ".", ".hidden", "//"}

func names() []string {
	var l []string
	for _, n := range fileNames {
		if n != "." && n != "//" {
			l = append(l, n)
		}
	}
	return l
}

// faults while a file is read
func readFaults(t *core.T, content string, arg bool) {
	d := dir(t)
	put(filepath.Join(d, "f"), "old\nbuffer\n")
	put(filepath.Join(d, "n"), content)
	log := filepath.Join(t.Env.Work, "log")
	ops := []edm.Op{{Line: "e f"}, {Line: "1d"}, {Line: "e n"}, {Line: ".="}, {Line: "="}, {Line: "w o"}, {Line: "w"}}
	lead := 0 // responses before the faulty command
	if !arg {
		lead = 2
	} else {
		ops = []edm.Op{{Line: "e n"}, {Line: ".="}, {Line: "="}, {Line: "w o"}}
	}
	run := func(plan string, logged bool) (core.Result, []fault.Call, map[string]file) {
		os.Remove(filepath.Join(d, "o"))
		put(filepath.Join(d, "f"), "old\nbuffer\n")
		x := core.Ex{Bin: t.Env.Bin("ed"), Dir: d, Stdin: script(ops), Env: []string{"VERIF_CLASS=files", "VERIF_FAULT=" + plan}}
		if arg {
			x.Args = []string{"n"}
			x.Stdin = script(ops[1:])
		}
		if logged {
			x.Env = append(x.Env, "VERIF_LOG="+log)
		}
		r := t.Env.Exec(x)
		t.Trans(1)
		t.Trace()
		return r, fault.ReadLog(log), read(d)
	}
	model := func(fails bool) ([]edm.Item, map[string]string) {
		st := &edm.State{FS: map[string]string{"f": "old\nbuffer\n", "n": content}}
		var items []edm.Item
		for i, o := range ops {
			if i == lead && fails {
				items = append(items, edm.Item{Kind: edm.Err})
				continue
			}
			items = append(items, st.Run(o))
		}
		return items, st.FS
	}
	okItems, okFS := model(false)
	koItems, koFS := model(true)
	clean, calls, _ := run("", true)
	if len(calls) == 0 {
		core.Must(fmt.Errorf("no system call was seen: the hooks are not in place"))
	}
	agree := func(r core.Result, fs map[string]file, items []edm.Item, want map[string]string) bool {
		if r.Code != 0 || r.Hung || !edm.Match(r.Out, items) {
			return false
		}
		if len(fs) != len(want) {
			return false
		}
		for n, c := range want {
			if fs[filepath.Join(d, n)].data != c {
				return false
			}
		}
		return true
	}
	ph, seen, done := 0, false, 0
	for _, c := range calls {
		if c.FD == 1 && c.Name == "write" {
			done += c.N
			if done <= len(clean.Out) {
				ph = edm.Answered(clean.Out[:done], ph, okItems)
			}
		}
		if t.Late() {
			return
		}
		if ph != lead || c.K < 0 {
			continue
		}
		var soft, hard, mustFail []string
		switch c.Name {
		case "openat":
			soft, mustFail = []string{"e4"}, []string{"e13", "e5", "e24"}
		case "read", "pread":
			soft, mustFail = []string{"e4", "s1", "s2", "s3", "s100", "s511"}, []string{"e5", "e21"}
		case "Close":
			hard = []string{"p5"}
		default:
			hard = []string{"e5", "e13"}
		}
		try := func(plan string, soft, must bool) {
			if t.Failed() {
				return
			}
			r, _, fs := run(plan, false)
			ok := agree(r, fs, okItems, okFS)
			ko := agree(r, fs, koItems, koFS)
			what := fmt.Sprintf("e of %s (file operand: %v), fault %s at %s on descriptor %d: exit %d, responses %s", clip(content), arg, plan, c.Name, c.FD, r.Code, clip(r.Out))
			switch {
			case soft && !ok:
				t.Failf("%s; want %s", what, edm.ShowItems(okItems))
			case must && !ko:
				t.Failf("%s; the read failed, so want %s and the files %v", what, edm.ShowItems(koItems), koFS)
			case !ok && !ko:
				t.Failf("%s; want %s or %s", what, edm.ShowItems(okItems), edm.ShowItems(koItems))
			}
		}
		for _, a := range soft {
			try(fmt.Sprintf("%d=%s", c.K, a), true, false)
		}
		for _, a := range hard {
			try(fmt.Sprintf("%d=%s", c.K, a), false, false)
		}
		for _, a := range mustFail {
			try(fmt.Sprintf("%d=%s", c.K, a), false, true)
		}
		if c.Name == "read" && !seen {
			seen = true
			for _, n := range []int{1, 3, 100} {
				try(fmt.Sprintf("%d=s%d;%d=e5", c.K, n, c.K+1), false, len(content) > n)
			}
		}
	}
	for _, n := range []int{1, 2, 3, 7} {
		r, _, fs := run(fmt.Sprintf("999999=s%d", n), false)
		if !t.Failed() && !agree(r, fs, okItems, okFS) {
			t.Failf("e of %s (file operand: %v), all transfers cut to %d bytes: exit %d, responses %s, want %s", clip(content), arg, n, r.Code, clip(r.Out), edm.ShowItems(okItems))
		}
	}
}

func main() {
	core.Main(core.Check{
		ID:          "C07",
		Bounds:      "e/w round trips of all contents of up to 5 (7) bytes from {a, newline, CR, NUL, 0xff, .} (up to 3 with the binary and a file operand), of 22 (26) sizes around buffer sizes x 6 patterns; all histories of up to 3 (4) steps from 16 commands and outside changes x 3 pairs of contents, and of 4 (5) steps on one; all pairs of 8 (or no) and 44 edits on all contents of up to 4 (5) bytes from {a, newline, CR} and 7 others before a w; all ranges of w on buffers of up to 4 lines; all 512 permission modes and 7 special ones x 3 umasks; 26 file names (in commands; as operands 51, also with newlines and blanks) and all lengths from 236 (200) to 255 bytes, 16 directory names; pairs of files of the same size; every byte and 35 sequences in 8 places; 10 ranges of buffers of up to 3000 lines; links and files of /proc; all pairs of 9 commands 80 times over with at most 60 open files; every system call of e x errors, short reads and interruptions",
		Assumptions: []string{"outside changes happen between commands", "targets are regular files in existing directories; links, special files and the mode and owner of new files are not judged"},
		Setup:       func(e *core.Env) error { return fault.Build(e, "ed") },
		Init: func(e *core.Env) {
			edm.Quiet2(e)
			syscall.Umask(022)
		},
		Spaces: func(e *core.Env) []core.Space {
			max := core.Pick(e, 5, 7)
			var sp []core.Space
			sp = append(sp, core.Space{Name: "contents", N: core.SeqN(len(alpha), 0, max), Show: func(i int) string { return fmt.Sprintf("%q", word(i, max)) }, Run: func(i int, t *core.T) { roundtrip(t, word(i, max), false) }})
			sp = append(sp, core.Space{Name: "contents-binary", N: core.SeqN(len(alpha), 0, 3), Show: func(i int) string { return fmt.Sprintf("%q", word(i, 3)) }, Run: func(i int, t *core.T) { roundtrip(t, word(i, 3), true) }})
			sz := sizes(e.Thorough())
			sp = append(sp, core.Space{Name: "sizes", N: len(sz) * 12, Show: func(i int) string { return fmt.Sprintf("%d bytes, pattern %d", sz[i/12], i/2%6) }, Run: func(i int, t *core.T) {
				roundtrip(t, pattern(i/2%6, sz[i/12]), i%2 == 1)
			}})
			// what other programs take for marks, and every byte, at every kind of place
			var seqs []string
			for c := 0; c < 256; c++ {
				seqs = append(seqs, string([]byte{byte(c)}), string([]byte{byte(c), byte(c)}))
			}
			seqs = append(seqs, "\xef\xbb\xbf", "\xef\xbb", "\xfe\xff", "\xff\xfe", "\xff\xfe\x00\x00", "\x1f\x8b\x08", "\u2028", "\u2029", "\u0085", "\u00a0", "\u200b", "\ufffd", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\\\n", "\\n", "\\", "\n.\n", "\n.\nw", "\r\n", "\n\r", "\x1b[0m", "%s", "%!", "\x00\n", "\n\x00", "?\n", "=", " \n", "\t\n", "\v\n", "\f\n", "\x1a\n", "\x04\n", "\n\x04")
			places := []string{"%s", "%sone\ntwo\n", "one%stwo\nthree\n", "one\n%stwo\n", "one\ntwo%s\nthree\n", "one\ntwo%s", "one\ntwo\n%s", "%s\n%s\n%s"}
			sq := func(i int) string { return strings.ReplaceAll(places[i%len(places)], "%s", seqs[i/len(places)]) }
			sp = append(sp, core.Space{Name: "sequences", N: len(seqs) * len(places) * 2, Show: func(i int) string { return fmt.Sprintf("%q, program %v", sq(i/2), i%2 == 1) }, Run: func(i int, t *core.T) {
				roundtrip(t, sq(i/2), i%2 == 1)
			}})
			// ranges of long buffers
			lens := []int{64, 100, 128, 257, 300, 1000, 3000}
			rforms := []string{"1,%[1]dw ", "1,%[2]dw ", "%[3]d,%[1]dw ", "%[3]d,%[2]dw ", "2,$w ", "$-%[2]d,$-1w ", ",w ", "w ", "%[3]d,$w", "1,%[3]dw"}
			ld := []int{len(lens), len(rforms), 3, 2}
			sp = append(sp, core.Space{Name: "long-ranges", N: core.Prod(ld...), Show: func(i int) string {
				d := core.Radix(i, ld...)
				return fmt.Sprintf("%d lines, %q, edits %d, unterminated %v", lens[d[0]], rforms[d[1]], d[2], d[3] == 1)
			}, Run: func(i int, t *core.T) {
				d := core.Radix(i, ld...)
				n := lens[d[0]]
				dd := dir(t)
				f, g := filepath.Join(dd, "f"), filepath.Join(dd, "g")
				var b strings.Builder
				for k := 1; k <= n; k++ {
					fmt.Fprintf(&b, "line %d", k)
					if k < n || d[3] == 0 {
						b.WriteByte('\n')
					}
				}
				put(f, b.String())
				st := &edm.State{FS: map[string]string{f: b.String()}}
				ops := []edm.Op{{Line: "e " + f}}
				for k := 0; k < d[2]*12; k++ {
					ops = append(ops, edm.Op{Line: fmt.Sprintf("%da", 1+k*n/25), Text: []string{fmt.Sprint("new ", k)}}, edm.Op{Line: fmt.Sprintf("%dd", 1+(k*7)%n)})
				}
				line := rforms[d[1]]
				if strings.Contains(line, "%") {
					line = fmt.Sprintf(line, n, n-1, n/2, "")
					if j := strings.Index(line, "%!"); j >= 0 {
						line = line[:j]
					}
				}
				if strings.HasSuffix(line, " ") {
					line += g
				}
				ops = append(ops, edm.Op{Line: "3"}, edm.Op{Line: line}, edm.Op{Line: ".="}, edm.Op{Line: "="})
				edm.Session(t, st, ops, nil)
				wantFS(t, dd, st.FS, nil, line)
			}})
			// directories with odd names, and files whose size is not what it seems
			dn := []string{"~", "$HOME", "*", "%d", "a b", "-", "..x", "é", "sub", "sub/sub", ".", "./.", "sub/..", "~root", "C:", "http:"}
			sp = append(sp, core.Space{Name: "directories", N: len(dn) * 3, Show: func(i int) string { return fmt.Sprintf("directory %q", dn[i/3]) }, Run: func(i int, t *core.T) {
				d := dir(t)
				home := filepath.Join(t.Env.Work, "home")
				core.Must(os.RemoveAll(home))
				core.Must(os.MkdirAll(home, 0777))
				put(filepath.Join(home, "x"), "HOME\n")
				core.Must(os.MkdirAll(filepath.Join(d, "sub", "sub"), 0777))
				core.Must(os.MkdirAll(filepath.Join(d, dn[i/3]), 0777))
				p := filepath.Join(d, dn[i/3], "x")
				put(p, "in dir\n")
				n := dn[i/3] + "/x"
				ops := []edm.Op{{Line: "e " + n}, {Line: "a", Text: []string{"more"}}, {Line: "w"}, {Line: "1w " + dn[i/3] + "/y"}, {Line: ",n"}}
				x := core.Ex{Bin: t.Env.Bin("ed"), Dir: d, Env: []string{"HOME=" + home}}
				from := 0
				switch i % 3 {
				case 1:
					if n[0] == '-' {
						return
					}
					x.Args, from = []string{n}, 1
				case 2:
					ops[2].Line = "w " + n
				}
				x.Stdin = script(ops[from:])
				r := t.Env.Exec(x)
				st := &edm.State{FS: map[string]string{n: "in dir\n"}}
				var items []edm.Item
				for _, o := range ops {
					items = append(items, st.Run(o))
				}
				t.Trans(len(ops))
				t.Trace()
				if r.Code != 0 || !edm.Match(r.Out, items) {
					t.Failf("e %q: exit %d, responses %q, want %s", n, r.Code, r.Out, edm.ShowItems(items))
					return
				}
				wantFS(t, d, map[string]string{p: "in dir\nmore\n", filepath.Join(d, dn[i/3], "y"): "in dir\n"}, nil, "e "+n)
				wantFS(t, home, map[string]string{filepath.Join(home, "x"): "HOME\n"}, nil, "e "+n)
			}})
			sp = append(sp, core.Space{Name: "kinds-of-files", N: core.PlaceKinds * 4, Show: func(i int) string { return "e of " + core.PlaceName(i/4) }, Run: func(i int, t *core.T) {
				if core.PlacePipe(i / 4) {
					return
				}
				p, c := t.Env.Place(i/4, "placed1", []string{"", "one\ntwo\n", strings.Repeat("0123456789\n", 700), "x"}[i%4])
				d := dir(t)
				ops := []edm.Op{{Line: "e " + p}, {Line: "="}, {Line: ".="}, {Line: "w out"}, {Line: "$d"}, {Line: "w out2"}}
				st := &edm.State{FS: map[string]string{p: c}}
				r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Dir: d, Stdin: script(ops)})
				var items []edm.Item
				for _, o := range ops {
					items = append(items, st.Run(o))
				}
				t.Trans(len(ops))
				t.Trace()
				if r.Code != 0 || !edm.Match(r.Out, items) {
					t.Failf("e %q: exit %d, responses %q, want %s", p, r.Code, r.Out, edm.ShowItems(items))
					return
				}
				wantFS(t, d, map[string]string{filepath.Join(d, "out"): st.FS["out"], filepath.Join(d, "out2"): st.FS["out2"]}, nil, "e "+p)
			}})
			conts := [][2]string{{"one\ntwo\nthree\n", "G1\nG2\n"}, {"x", ""}, {"", "\n\n"}}
			nst := len(steps(""))
			depth := core.Pick(e, 3, 4)
			hist := func(d string, i, min, max int) []step {
				al := steps(d)
				var h []step
				for _, k := range core.Seq(i, nst, min, max) {
					h = append(h, al[k])
				}
				return h
			}
			histories := func(name string, min, max int, conts [][2]string) core.Space {
				return core.Space{Name: name, N: core.SeqN(nst, min, max) * len(conts), Show: func(i int) string {
					var l []string
					for _, s := range hist("", i/len(conts), min, max) {
						l = append(l, s.txt)
					}
					return strings.Join(l, " ")
				}, Run: func(i int, t *core.T) {
					d := filepath.Join(t.Env.Work, "d")
					h := hist(d, i/len(conts), min, max)
					if !useful(h) {
						return
					}
					dir(t)
					history(t, d, h, conts[i%len(conts)])
				}}
			}
			sp = append(sp, histories("histories", 1, depth, conts), histories("histories-longer", depth+1, depth+1, conts[:1]))
			// edits before a w
			var edits []edm.Op
			for _, l := range []string{"1d", "$d", "2d", "1,2d", "2,$d", ",d", "$-1d", "d"} {
				edits = append(edits, edm.Op{Line: l})
			}
			for _, l := range []string{"a", "0a", "1a", "$a", "i", "1i", "$i", "c", "1c", "$c", "1,2c", ",c"} {
				for _, tx := range [][]string{nil, {"new"}, {"", "é\xff", ""}} {
					edits = append(edits, edm.Op{Line: l, Text: tx})
				}
			}
			ewords := core.SeqN(len(alpha[:3]), 0, core.Pick(e, 4, 5))
			extra := []string{"one\ntwo\nthree\n", "one\ntwo\nthree", "\n\nthree\n", "é\n日本\n\xff\n", strings.Repeat("0123456789\n", 500), strings.Repeat("z", 4096) + "\n" + strings.Repeat("y", 4095) + "\n", strings.Repeat("z", 70000)}
			econt := func(k int) string {
				if k < ewords {
					s := ""
					for _, x := range core.Seq(k, 3, 0, core.Pick(e, 4, 5)) {
						s += alpha[x]
					}
					return s
				}
				return extra[k-ewords]
			}
			few := []edm.Op{{Line: "1d"}, {Line: "$d"}, {Line: "2,$d"}, {Line: "a", Text: []string{"new"}}, {Line: "$a", Text: []string{"x", ""}}, {Line: "1i", Text: []string{"é"}}, {Line: "$c", Text: []string{"\xff"}}, {Line: ",c"}}
			ne := len(edits) * (1 + len(few))
			sp = append(sp, core.Space{Name: "edited", N: (ewords + len(extra)) * ne, Show: func(i int) string { return fmt.Sprintf("%s, edits %d", clip(econt(i/ne)), i%ne) }, Run: func(i int, t *core.T) {
				d := dir(t)
				f, g := filepath.Join(d, "f"), filepath.Join(d, "g")
				content := econt(i / ne)
				put(f, content)
				st := &edm.State{FS: map[string]string{f: content}}
				ops := []edm.Op{{Line: "e " + f}}
				if k := i % ne / len(edits); k > 0 {
					ops = append(ops, few[k-1])
				}
				ops = append(ops, edits[i%len(edits)], edm.Op{Line: "w"}, edm.Op{Line: ".="}, edm.Op{Line: "$w " + g})
				edm.Session(t, st, ops, edm.Probe)
				t.State(st.Key())
				wantFS(t, d, st.FS, nil, edm.ShowOps(ops))
			}})
			// ranges
			type rg struct {
				n, a, b int
				unt     bool
			}
			var rgs []rg
			for n := 1; n <= 4; n++ {
				for a := 1; a <= n; a++ {
					for b := a; b <= n; b++ {
						rgs = append(rgs, rg{n, a, b, false}, rg{n, a, b, true})
					}
				}
			}
			forms := []string{"%d,%dw ", "%d;%dw ", "/L%c/,%dw ", ".,$w ", ",w ", "%d,%dw"}
			sp = append(sp, core.Space{Name: "ranges", N: len(rgs) * len(forms) * 2, Show: func(i int) string { return fmt.Sprint(rgs[i/len(forms)/2]) }, Run: func(i int, t *core.T) {
				r := rgs[i/len(forms)/2]
				form := i / 2 % len(forms)
				d := dir(t)
				f, g := filepath.Join(d, "f"), filepath.Join(d, "g")
				content := strings.Join(edm.Lines(r.n), "\n")
				if !r.unt {
					content += "\n"
				}
				put(f, content)
				fs := map[string]string{f: content}
				if i%2 == 1 {
					put(g, "previous contents that are longer than the new ones\n")
					fs[g] = "previous contents that are longer than the new ones\n"
				}
				line := ""
				switch form {
				case 0, 1:
					line = fmt.Sprintf(forms[form], r.a, r.b) + g
				case 2:
					line = fmt.Sprintf(forms[form], 'a'+r.a-1, r.b) + g
				case 3, 4:
					line = forms[form] + g
				case 5:
					line = fmt.Sprintf(forms[form], r.a, r.b)
				}
				st := &edm.State{FS: fs}
				edm.Session(t, st, []edm.Op{{Line: "e " + f}, {Line: fmt.Sprint(r.a)}, {Line: line}}, edm.Probe)
				wantFS(t, d, st.FS, nil, line)
			}})
			// modes
			var md []os.FileMode
			for m := 0; m < 512; m++ {
				md = append(md, os.FileMode(m))
			}
			md = append(md, 0755|os.ModeSetuid, 0755|os.ModeSetgid, 0755|os.ModeSticky, 0644|os.ModeSetgid, 0711|os.ModeSetuid|os.ModeSetgid, os.ModeSticky, 0777|os.ModeSetuid|os.ModeSetgid|os.ModeSticky)
			masks := []int{022, 0, 077}
			sp = append(sp, core.Space{Name: "modes", N: len(md) * 3, Show: func(i int) string { return fmt.Sprintf("%v umask %o", md[i/3], masks[i%3]) }, Run: func(i int, t *core.T) {
				d := dir(t)
				f, g := filepath.Join(d, "f"), filepath.Join(d, "g")
				put(f, "a\nb\n")
				put(g, "c\n")
				m := md[i/3]
				core.Must(os.Chmod(f, m))
				core.Must(os.Chmod(g, m))
				syscall.Umask(masks[i%3])
				defer syscall.Umask(022)
				st := &edm.State{FS: map[string]string{f: "a\nb\n", g: "c\n"}}
				edm.Session(t, st, []edm.Op{{Line: "e " + f}, {Line: "1d"}, {Line: "w"}, {Line: "1w " + g}, {Line: "w"}}, nil)
				wantFS(t, d, st.FS, map[string]os.FileMode{f: m, g: m}, fmt.Sprintf("mode %v, umask %o", m, masks[i%3]))
			}})
			nm := names()
			sp = append(sp, core.Space{Name: "names", N: len(nm) * len(nm), Show: func(i int) string { return fmt.Sprintf("e %q, w %q", nm[i/len(nm)], nm[i%len(nm)]) }, Run: func(i int, t *core.T) {
				a, b := nm[i/len(nm)], nm[i%len(nm)]
				d := dir(t)
				core.Must(os.MkdirAll(filepath.Join(d, "sub"), 0777))
				fs := map[string]string{}
				for _, n := range []string{a, "keep", a + ".swp", b + ".swp"} {
					put(filepath.Join(d, n), "of "+n+"\n")
					fs[n] = "of " + n + "\n"
				}
				st := &edm.State{FS: fs}
				ops := []edm.Op{{Line: "e " + a}, {Line: "a", Text: []string{"more"}}, {Line: "w " + b}, {Line: "1d"}, {Line: "w"}, {Line: ",n"}}
				r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Dir: d, Stdin: script(ops)})
				var items []edm.Item
				for _, o := range ops {
					items = append(items, st.Run(o))
				}
				t.Trans(len(ops))
				t.Trace()
				if r.Code != 0 || !edm.Match(r.Out, items) {
					t.Failf("e %q, w %q: exit %d, responses %q, want %s", a, b, r.Code, r.Out, edm.ShowItems(items))
					return
				}
				abs := map[string]string{}
				for n, c := range st.FS {
					abs[filepath.Join(d, n)] = c
				}
				wantFS(t, d, abs, nil, fmt.Sprintf("e %q, w %q", a, b))
			}})
			// operands with names that could be taken for something else
			on := append(append([]string{}, nm...), " lead", "\tlead", "  two", "trail ", "a\nb", "a\nq", "\nx", "x\n", "a\nw keep", "a\n1d\nw", "a\na\nx\n.", "a\r", "\r\n", ".\n", " ", "\n", "a\n\nb", "e", "e f", "./e", "--", "-p", "-s", "0", "!ls", "f\x00"[:1])
			sp = append(sp, core.Space{Name: "operand-names", N: len(on) * 3, Show: func(i int) string { return fmt.Sprintf("operand %q, way %d", on[i/3], i%3) }, Run: func(i int, t *core.T) {
				d := dir(t)
				core.Must(os.MkdirAll(filepath.Join(d, "sub"), 0777))
				const alias = "ALIAS"
				name := on[i/3]
				fs := map[string]string{"keep": "of keep\n", "a": "of a\n"}
				if i%3 < 2 {
					fs[alias] = "one\ntwo\n"
				}
				if name == "a" {
					delete(fs, "a")
				}
				for n, c := range fs {
					if n == alias {
						n = name
					}
					put(filepath.Join(d, n), c)
				}
				st := &edm.State{FS: fs}
				ops := []edm.Op{{Line: "e " + alias}, {Line: ",n"}, {Line: "a", Text: []string{"more"}}, {Line: "w"}, {Line: "1d"}, {Line: ",n"}}
				if i%3 == 1 {
					ops = append(ops, edm.Op{Line: "e keep"}, edm.Op{Line: "a", Text: []string{"x"}}, edm.Op{Line: "w"})
				}
				if i%3 == 2 {
					ops = append(ops[:3:3], ops[4:]...) // no such file, so nothing to write to
				}
				r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Dir: d, Args: []string{name}, Stdin: script(ops[1:])})
				var items []edm.Item
				for _, o := range ops {
					items = append(items, st.Run(o))
				}
				t.Trans(len(ops))
				t.Trace()
				if r.Code != 0 || !edm.Match(r.Out, items) {
					t.Failf("operand %q: exit %d, responses %q, want %s", name, r.Code, r.Out, edm.ShowItems(items))
					return
				}
				abs := map[string]string{}
				for n, c := range st.FS {
					if n == alias {
						n = name
					}
					abs[filepath.Join(d, n)] = c
				}
				wantFS(t, d, abs, nil, fmt.Sprintf("operand %q", name))
			}})
			// names up to the longest a file can have
			var ln []string
			for n := core.Pick(e, 236, 200); n <= 255; n++ {
				ln = append(ln, strings.Repeat("n", n), strings.Repeat("é", n/2)+strings.Repeat("x", n%2), "sub/"+strings.Repeat("s", n-1)+".")
			}
			sp = append(sp, core.Space{Name: "long-names", N: len(ln) * 4, Show: func(i int) string { return fmt.Sprintf("name of %d bytes, way %d", len(ln[i/4]), i%4) }, Run: func(i int, t *core.T) {
				name := ln[i/4]
				d := dir(t)
				core.Must(os.MkdirAll(filepath.Join(d, "sub"), 0777))
				st := &edm.State{FS: map[string]string{"keep": "of keep\n"}}
				for c := len(name) - 1; c > len(name)-20; c-- {
					if strings.HasSuffix(name[:c], "/") {
						break
					}
					st.FS[name[:c]] = fmt.Sprint("neighbour ", c) // what a shortened name could hit
					if len(filepath.Base(name[:c])) <= 250 {
						st.FS[name[:c]+".swp"] = fmt.Sprint("other ", c)
					}
				}
				x := core.Ex{Bin: t.Env.Bin("ed"), Dir: d}
				var ops []edm.Op
				from := 0
				switch i % 4 {
				case 0:
					st.FS[name] = "one\ntwo\n"
					ops = []edm.Op{{Line: "e " + name}, {Line: "1d"}, {Line: "w"}, {Line: ",n"}}
				case 1:
					st.FS[name] = "one\ntwo\n"
					ops = []edm.Op{{Line: "e keep"}, {Line: "a", Text: []string{"more"}}, {Line: "w " + name}, {Line: ",n"}}
				case 2:
					ops = []edm.Op{{Line: "a", Text: []string{"new"}}, {Line: "w " + name}, {Line: "e " + name}, {Line: ",n"}}
				case 3:
					st.FS[name] = "one\ntwo"
					ops = []edm.Op{{Line: "e " + name}, {Line: "0a", Text: []string{"more"}}, {Line: "w"}, {Line: "w"}, {Line: ",n"}}
					x.Args, from = []string{name}, 1
				}
				for n, c := range st.FS {
					put(filepath.Join(d, n), c)
				}
				x.Stdin = script(ops[from:])
				r := t.Env.Exec(x)
				var items []edm.Item
				for _, o := range ops {
					items = append(items, st.Run(o))
				}
				t.Trans(len(ops))
				t.Trace()
				if r.Code != 0 || !edm.Match(r.Out, items) {
					t.Failf("name of %d bytes: exit %d, responses %s, want %s", len(name), r.Code, clip(r.Out), clip(edm.ShowItems(items)))
					return
				}
				abs := map[string]string{}
				for n, c := range st.FS {
					abs[filepath.Join(d, n)] = c
				}
				wantFS(t, d, abs, nil, fmt.Sprintf("name of %d bytes", len(name)))
			}})
			// files of the same size one after the other
			ss := []int{1, 2, 5, 17, 41, 64, 100, 257, 513, 1025, 4097, 65537}
			sd := []int{len(ss), 4, 4, 3, 2}
			sp = append(sp, core.Space{Name: "same-size", N: core.Prod(sd...), Show: func(i int) string {
				d := core.Radix(i, sd...)
				return fmt.Sprintf("two files of %d bytes, kind %d, differing at place %d, program %d, looking=%v", ss[d[0]], d[1], d[2], d[3], d[4] == 1)
			}, Run: func(i int, t *core.T) {
				dd := core.Radix(i, sd...)
				n := ss[dd[0]]
				b := []byte(pattern([]int{0, 2, 3, 5}[dd[1]], n))
				a := string(b)
				b[[]int{0, n / 2, n - 1, n * 3 / 4}[dd[2]]] = '#'
				d := dir(t)
				f, g := filepath.Join(d, "f"), filepath.Join(d, "g")
				put(f, a)
				put(g, string(b))
				now := time.Unix(1700000000, 0)
				core.Must(os.Chtimes(f, now, now))
				core.Must(os.Chtimes(g, now, now))
				st := &edm.State{FS: map[string]string{f: a, g: string(b)}}
				var ops []edm.Op
				for k, c := range [][]string{{"e " + f, "e " + g, "w " + f + "2", "e " + f}, {"e " + f, "w " + g, "e " + g, "w " + f + "2"}, {"e " + g, "1,$w " + f, "e " + f, "e " + g}}[dd[3]] {
					ops = append(ops, edm.Op{Line: c})
					if dd[4] == 1 {
						ops = append(ops, edm.Op{Line: "1,$p"}, edm.Op{Line: "$n"}, edm.Op{Line: "/#/"}, edm.Op{Line: "/" + string(rune('0'+k)) + "/="})
					}
				}
				edm.Session(t, st, ops, edm.Probe)
				wantFS(t, d, st.FS, nil, "files of the same size")
			}})
			// long sessions with few open files
			cm := []string{"e f", "e g", "e none", "w", "w f", "w new", "1w g", "1d", "a"}
			sp = append(sp, core.Space{Name: "long-sessions", N: len(cm) * len(cm), Show: func(i int) string {
				return fmt.Sprintf("%q and %q again and again, at most 60 open files", cm[i/len(cm)], cm[i%len(cm)])
			}, Run: func(i int, t *core.T) {
				d := dir(t)
				st := &edm.State{FS: map[string]string{"f": "one\ntwo\nthree\n", "g": "G"}}
				for n, c := range st.FS {
					put(filepath.Join(d, n), c)
				}
				ops := []edm.Op{{Line: "e f"}}
				for k := 0; k < 80; k++ {
					for _, c := range []string{cm[i/len(cm)], cm[i%len(cm)]} {
						o := edm.Op{Line: c}
						if c == "a" {
							o.Text = []string{fmt.Sprint("t", k)}
						}
						ops = append(ops, o)
					}
				}
				ops = append(ops, edm.Op{Line: ".="}, edm.Op{Line: ",n"})
				r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Dir: d, Stdin: script(ops), Files: 60})
				var items []edm.Item
				for _, o := range ops {
					items = append(items, st.Run(o))
				}
				t.Trans(len(ops))
				t.Trace()
				if r.Code != 0 || !edm.Match(r.Out, items) {
					t.Failf("exit %d, responses %s, want %s", r.Code, clip(r.Out), clip(edm.ShowItems(items)))
					return
				}
				abs := map[string]string{}
				for n, c := range st.FS {
					abs[filepath.Join(d, n)] = c
				}
				wantFS(t, d, abs, nil, "long session")
			}})
			rf := []string{"", "x", "one\ntwo\n", "one\ntwo", strings.Repeat("0123456789\n", 120), strings.Repeat("z", 5000) + "\n"}
			sp = append(sp, core.Space{Name: "faults", N: len(rf) * 2, Show: func(i int) string { return clip(rf[i/2]) }, Run: func(i int, t *core.T) { readFaults(t, rf[i/2], i%2 == 1) }})
			sort.SliceStable(sp, func(i, j int) bool { return false })
			return sp
		},
	})
}
