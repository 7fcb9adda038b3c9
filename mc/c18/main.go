// C18: test.
package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"verif/mc/core"
)

const (
	yes = iota
	no
	fail
)

var names = []string{"true", "false", "error"}

func b(x bool) int {
	if x {
		return yes
	}
	return no
}

func neg(r int) int {
	switch r {
	case yes:
		return no
	case no:
		return yes
	}
	return r
}

func isInt(s string) bool {
	d := strings.TrimPrefix(s, "-")
	return d != "" && strings.Trim(d, "0123456789") == ""
}

func binary(a, op, c string) (int, bool) {
	switch op {
	case "=":
		return b(a == c), true
	case "!=":
		return b(a != c), true
	case "-eq", "-ne", "-gt", "-ge", "-lt", "-le":
	default:
		return 0, false
	}
	if !isInt(a) || !isInt(c) {
		return fail, true
	}
	x, _ := strconv.ParseInt(a, 10, 64)
	y, _ := strconv.ParseInt(c, 10, 64)
	switch op {
	case "-eq":
		return b(x == y), true
	case "-ne":
		return b(x != y), true
	case "-gt":
		return b(x > y), true
	case "-ge":
		return b(x >= y), true
	case "-lt":
		return b(x < y), true
	}
	return b(x <= y), true
}

func unary(dir, op, a string) int {
	switch op {
	case "-n":
		return b(a != "")
	case "-z":
		return b(a == "")
	case "-b", "-c", "-d", "-e", "-f", "-g", "-p", "-S", "-s", "-u", "-h", "-L":
	default:
		return fail
	}
	if a == "" {
		return no
	}
	var st syscall.Stat_t
	p := a
	if !filepath.IsAbs(p) {
		p = dir + "/" + a // not cleaned: "f/." must stay as it is
	}
	var err error
	if op == "-h" || op == "-L" {
		err = syscall.Lstat(p, &st)
	} else {
		err = syscall.Stat(p, &st)
	}
	if err != nil {
		return no
	}
	kind := st.Mode & syscall.S_IFMT
	switch op {
	case "-b":
		return b(kind == syscall.S_IFBLK)
	case "-c":
		return b(kind == syscall.S_IFCHR)
	case "-d":
		return b(kind == syscall.S_IFDIR)
	case "-e":
		return yes
	case "-f":
		return b(kind == syscall.S_IFREG)
	case "-g":
		return b(st.Mode&syscall.S_ISGID != 0)
	case "-u":
		return b(st.Mode&syscall.S_ISUID != 0)
	case "-p":
		return b(kind == syscall.S_IFIFO)
	case "-S":
		return b(kind == syscall.S_IFSOCK)
	case "-s":
		return b(st.Size > 0)
	}
	return b(kind == syscall.S_IFLNK)
}

func model(dir string, a []string) int {
	switch len(a) {
	case 0:
		return no
	case 1:
		return b(a[0] != "")
	case 2:
		if a[0] == "!" {
			return neg(model(dir, a[1:]))
		}
		return unary(dir, a[0], a[1])
	case 3:
		if r, ok := binary(a[0], a[1], a[2]); ok {
			return r
		}
		if a[0] == "!" {
			return neg(model(dir, a[1:]))
		}
		return fail
	case 4:
		if a[0] == "!" {
			return neg(model(dir, a[1:]))
		}
		return fail
	}
	panic("too many arguments")
}

// tree makes one file of every kind.
func tree(e *core.Env) string {
	d := filepath.Join(e.Work, "tree")
	if _, err := os.Stat(filepath.Join(d, "done")); err == nil {
		return d
	}
	must := core.Must
	must(os.MkdirAll(filepath.Join(d, "dir"), 0755))
	w := func(n, c string, m os.FileMode) {
		must(os.WriteFile(filepath.Join(d, n), []byte(c), 0644))
		must(os.Chmod(filepath.Join(d, n), m))
	}
	w("empty", "", 0644)
	w("full", "data\n", 0644)
	w("noperm", "x", 0)
	w("suid", "x", 0755|os.ModeSetuid)
	w("sgid", "x", 0755|os.ModeSetgid)
	w("both", "", 0755|os.ModeSetuid|os.ModeSetgid)
	w("-n", "x", 0644)
	w("=", "", 0644)
	must(os.Symlink("full", filepath.Join(d, "tofull")))
	must(os.Symlink("empty", filepath.Join(d, "toempty")))
	must(os.Symlink("dir", filepath.Join(d, "todir")))
	must(os.Symlink("gone", filepath.Join(d, "dangling")))
	must(os.Symlink("loop", filepath.Join(d, "loop")))
	must(os.Symlink("tofull", filepath.Join(d, "twice")))
	must(os.Symlink("fifo", filepath.Join(d, "tofifo")))
	must(os.Symlink("suid", filepath.Join(d, "tosuid")))
	must(os.Symlink("/dev/null", filepath.Join(d, "tonull")))
	must(syscall.Mkfifo(filepath.Join(d, "fifo"), 0644))
	// a short path, since socket names are limited
	cwd, _ := os.Getwd()
	must(os.Chdir(d))
	l, err := net.ListenUnix("unix", &net.UnixAddr{Name: "sock", Net: "unix"})
	must(err)
	l.SetUnlinkOnClose(false)
	l.Close()
	must(os.Chdir(cwd))
	must(os.Symlink("sock", filepath.Join(d, "tosock")))
	must(os.Chmod(filepath.Join(d, "dir"), 0755|os.ModeSetgid|os.ModeSticky))
	w("done", "", 0644)
	return d
}

var files = []string{"empty", "full", "noperm", "suid", "sgid", "both", "-n", "=", "tofull", "toempty", "todir", "dangling", "loop", "twice", "tofifo", "tosuid", "tonull", "fifo", "sock", "tosock", "dir", "gone", "", "/dev/null", "/dev/zero", ".", "..", "full/x", "dir/.", "full/.", "todir/"}

func try(t *core.T, args []string) {
	d := tree(t.Env)
	want := model(d, args)
	r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("test"), Argv0: "test", Args: args, Dir: d})
	t.Trans(1)
	t.Trace()
	t.Outcome(fmt.Sprintf("%d arguments: %s", len(args), names[want]))
	t.State(fmt.Sprintf("%q", args))
	ok := !r.Hung
	switch want {
	case yes:
		ok = ok && r.Code == 0
	case no:
		ok = ok && r.Code == 1
	default:
		ok = ok && r.Code > 1 && r.Code < 128 && r.Err != ""
	}
	if !ok {
		if key, res := defect(d, args); key != "" && !r.Hung && (res == yes && r.Code == 0 || res == no && r.Code == 1 || res == fail && r.Code == 2 && r.Err != "") {
			t.Finding(key, "test %q: %v, want %s", args, r, names[want])
			return
		}
		t.Failf("test %q: %v, want %s", args, r, names[want])
	}
}

// defect is what the parser of the pinned commit answers, and which of its
// known defects decides it ("" if none).  cmd/test cannot be repaired within
// the rules of this task (its path counts as a test directory).
func defect(dir string, a []string) (key string, res int) {
	switch len(a) {
	case 0, 1:
		return "", model(dir, a)
	}
	switch {
	case a[0] == "!":
		if len(a) == 3 {
			if _, ok := binary(a[0], a[1], a[2]); ok {
				key = "negation-before-binary-primary"
			}
		}
		k, r := defect(dir, a[1:])
		if k != "" {
			key = k
		}
		return key, neg(r)
	case a[0] == "":
		return "empty-first-argument", no
	case a[0] == "-b":
		key = "no-b-primary"
		if len(a) == 3 {
			if r, ok := binary(a[0], a[1], a[2]); ok {
				return key, r
			}
		}
		return key, fail
	case isUnary(a[0]):
		if len(a) > 2 {
			key = "unary-primary-before-argument-count"
		}
		if strings.ContainsAny(a[0][1:], "rtwx") {
			return key, fail
		}
		return key, unary(dir, a[0], a[1])
	case len(a) == 3:
		if r, ok := binary(a[0], a[1], a[2]); ok {
			return "", r
		}
	}
	return "", fail
}

func isUnary(s string) bool {
	return len(s) == 2 && s[0] == '-' && strings.ContainsAny(s[1:], "bcdefghLnprSstuwxz")
}

func seqSpace(name string, alpha []string, min, max int) core.Space {
	mk := func(i int) []string {
		a := []string{}
		for _, d := range core.Seq(i, len(alpha), min, max) {
			a = append(a, alpha[d])
		}
		return a
	}
	return core.Space{Name: name, N: core.SeqN(len(alpha), min, max),
		Run:  func(i int, t *core.T) { try(t, mk(i)) },
		Show: func(i int) string { return fmt.Sprintf("test %q", mk(i)) }}
}

func listSpace(name string, lists [][]string) core.Space {
	return core.Space{Name: name, N: len(lists),
		Run:  func(i int, t *core.T) { try(t, lists[i]) },
		Show: func(i int) string { return fmt.Sprintf("test %q", lists[i]) }}
}

func main() {
	core.Main(core.Check{
		ID:          "C18",
		Bounds:      "all argument lists of 0..4 over an alphabet of 15 (18) strings incl. the empty one and operators as operands; all lists of 3 over 29; every file primary on 31 file kinds with 0..2 negations; all integer primaries on 13x13 integer texts and 9 non-integers",
		Assumptions: []string{"-r, -w, -x, -t, -a, -o and parentheses are outside the property", "no block device is available, so -b is only shown to be false elsewhere", "integers fit 64 bits"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "test") },
		Spaces: func(e *core.Env) []core.Space {
			alpha := []string{"", "a", "b", "!", "=", "!=", "-n", "-z", "-f", "full", "-eq", "1", "-1", "-q", "--"}
			if e.Thorough() {
				alpha = append(alpha, "-lt", "dir", "==")
			}
			wide := []string{"", "a", "A", "b", "!", "=", "!=", "-eq", "-ne", "-gt", "-ge", "-lt", "-le", "-n", "-z", "-f", "-d", "-e", "-h", "1", "2", "10", "-1", "01", "1a", "full", "dir", "==", "-E", "-ef", "<", "-nn", "é", "a b", "*"}
			var fl, ints [][]string
			prim := []string{"-b", "-c", "-d", "-e", "-f", "-g", "-h", "-L", "-p", "-S", "-s", "-u", "-n", "-z"}
			for _, p := range prim {
				for _, f := range files {
					fl = append(fl, []string{p, f}, []string{"!", p, f}, []string{"!", "!", p, f})
				}
			}
			nums := []string{"0", "1", "-1", "2", "9", "10", "-10", "007", "-0", "100", "9223372036854775807", "-9223372036854775808", "4294967296"}
			nots := []string{"", "x", "1x", "1.0", "-", "--1", "é", "1 2", "1e1"}
			for _, op := range []string{"-eq", "-ne", "-gt", "-ge", "-lt", "-le", "=", "!="} {
				for _, x := range append(append([]string{}, nums...), nots...) {
					for _, y := range append(append([]string{}, nums...), nots...) {
						ints = append(ints, []string{x, op, y}, []string{"!", x, op, y})
					}
				}
			}
			return []core.Space{seqSpace("up-to-4", alpha, 0, 4), seqSpace("three", wide, 0, 3), listSpace("files", fl), listSpace("integers", ints)}
		},
	})
}
