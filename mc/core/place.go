package core

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// PlaceKinds is the number of ways Place knows.
const PlaceKinds = 10

var placeNames = [PlaceKinds]string{"regular file", "symbolic link", "hard link", "/dev/stdin on a pipe", "/proc/self/fd/0 on a pipe",
	"/proc/sys/kernel/ostype", "/proc/version", "link to /proc/version", "old read-only file", "old executable file"}

// PlaceName describes a kind.
func PlaceName(kind int) string { return placeNames[kind] }

// PlacePipe reports whether the kind takes standard input.
func PlacePipe(kind int) bool { return kind == 3 || kind == 4 }

// Place makes an operand of the kind. The content of the /proc kinds is fixed;
// their size, and that of the pipes, is not what stat says.
func (e *Env) Place(kind int, name, content string) (operand, have string) {
	p := filepath.Join(e.Work, name)
	for _, x := range []string{p, p + ".to"} {
		if err := os.Remove(x); err != nil && !os.IsNotExist(err) {
			must(err)
		}
	}
	proc := func(f string) (string, string) {
		b, err := os.ReadFile(f)
		if err != nil || len(b) == 0 {
			return e.Write(name, content), content
		}
		return f, string(b)
	}
	switch kind {
	case 1:
		e.Write(name+".to", content)
		must(os.Symlink(name+".to", p))
		return p, content
	case 2:
		e.Write(name+".to", content)
		must(os.Link(p+".to", p))
		return p, content
	case 3:
		return "/dev/stdin", content
	case 4:
		return "/proc/self/fd/0", content
	case 5:
		return proc("/proc/sys/kernel/ostype")
	case 6:
		return proc("/proc/version")
	case 7:
		f, c := proc("/proc/version")
		if f == p {
			return f, c
		}
		must(os.Symlink(f, p))
		return p, c
	case 8, 9:
		e.Write(name, content)
		must(os.Chmod(p, []os.FileMode{0444, 0755}[kind-8]))
		must(os.Chtimes(p, epoch, epoch))
	default:
		e.Write(name, content)
	}
	return p, content
}

// ExecPlaced runs a command one of whose operands may be a pipe with the content.
func (e *Env) ExecPlaced(x Ex, pipe bool, content string) Result {
	if !pipe {
		return e.Exec(x)
	}
	var chunks []string
	switch n := len(content); {
	case n > 1:
		chunks = []string{content[:n/2], content[n/2:]}
	default:
		chunks = []string{content}
	}
	return e.ExecChunks(x, chunks, false)
}

var epoch = time.Unix(1000000000, 0)

// PlacedPairs runs fn for a pair of operands of every two kinds and several relations of their contents.
func PlacedPairs(name string, base []string, fn func(t *T, a, b, f, g string, run func(bin string, args ...string) Result)) Space {
	rel := 5
	dims := []int{PlaceKinds, PlaceKinds, len(base), rel}
	change := func(s string, k int) string {
		switch {
		case k == 0 || s == "":
			return s
		case k == 1:
			return string([]byte{s[0] ^ 1}) + s[1:]
		case k == 2 && len(s) > 1:
			return s[:len(s)-2] + string([]byte{s[len(s)-2] ^ 1}) + s[len(s)-1:]
		case k == 3:
			return s + s
		}
		return ""
	}
	return Space{Name: name, N: Prod(dims...),
		Show: func(i int) string {
			d := Radix(i, dims...)
			return fmt.Sprintf("%s and %s, contents %q, relation %d", PlaceName(d[0]), PlaceName(d[1]), clip(base[d[2]], 40), d[3])
		},
		Run: func(i int, t *T) {
			d := Radix(i, dims...)
			if PlacePipe(d[0]) && PlacePipe(d[1]) {
				return
			}
			f, a := t.Env.Place(d[0], "placed1", base[d[2]])
			g, b := t.Env.Place(d[1], "placed2", change(a, d[3]))
			if strings.HasPrefix(g, "/proc/version") || strings.HasPrefix(g, "/proc/sys") {
				// its content is what it is: relate the first one to it
				f, a = t.Env.Place(d[0], "placed1", change(b, d[3]))
			}
			pipe := a
			if PlacePipe(d[1]) {
				pipe = b
			}
			fn(t, a, b, f, g, func(bin string, args ...string) Result {
				return t.Env.ExecPlaced(Ex{Bin: t.Env.Bin(bin), Args: args}, PlacePipe(d[0]) || PlacePipe(d[1]), pipe)
			})
		}}
}
