package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mc/core"
)

// well-formed locale definitions; the escape character of the last two is /
var defs = []struct {
	name, text string
	slash      bool
}{
	{"time", "LC_TIME\nabday \"s\\\";\";\"m\"\nd_fmt \"a\\x41/\"\nEND LC_TIME\n", false},
	{"numeric", "comment_char %\nLC_NUMERIC\n% text\ndecimal_point \"\\\\\"\ngrouping 3;\\\n2\nEND LC_NUMERIC\n", false},
	{"ctype", "LC_CTYPE\nupper <A>;<B>\ntoupper (<a>,<A>)\nEND LC_CTYPE\nLC_MESSAGES\nyesexpr \"^[yY]\"\nEND LC_MESSAGES\n", false},
	{"slash", "escape_char /\nLC_TIME\nd_fmt \"a/\"b\"\nt_fmt \"c\\\"\nEND LC_TIME\n", true},
	{"slash2", "escape_char /\nLC_MONETARY\ncurrency_symbol \"//\"\nmon_grouping 3;/\n3\nEND LC_MONETARY\n", true},
}

var orders = []string{"1122", "1212", "1221", "2112", "2121", "2211"}

func buildHelper(e *core.Env) error {
	of := filepath.Join(e.Scratch, "parse.json")
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(e.Repo, "pkg/locale/zz_verif_parse.go"): filepath.Join(e.Verif, "mc/c24/parse.go.txt")}})
	if err := os.WriteFile(of, j, 0666); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", of, "-o", e.Bin("helper"), "./c24/helper")
	cmd.Dir = filepath.Join(e.Verif, "mc")
	cmd.Env = core.GoEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		// the parser has other names now: this part is not explored
		fmt.Fprintf(os.Stderr, "locale definitions are not explored: %v\n%s", err, b)
	}
	return nil
}

func definitions(e *core.Env) core.Space {
	n := len(defs)
	name := func(i int) string {
		r := core.Radix(i, n, n, len(orders))
		return fmt.Sprintf("%s,%s,%s", defs[r[0]].name, defs[r[1]].name, orders[r[2]])
	}
	N := n * n * len(orders)
	if _, err := os.Stat(e.Bin("helper")); err != nil {
		N = 0
	}
	return core.Space{Name: "definitions", N: N, Show: name, Run: func(i int, t *core.T) {
		r := core.Radix(i, n, n, len(orders))
		a, b, o := defs[r[0]], defs[r[1]], orders[r[2]]
		overlap := a.slash != b.slash && o != "1122" && o != "2211"
		if overlap && name(i) != "time,slash,1212" {
			return // one history stands for the known finding
		}
		res := t.Env.Exec(core.Ex{Bin: t.Env.Bin("helper"), Args: []string{o, a.text, b.text}})
		t.Trans(4)
		t.Trace()
		t.State(name(i))
		if strings.TrimSpace(res.Out) == "AA" && res.Code == 0 {
			return
		}
		f, args := "definitions %s: %s", []any{name(i), res}
		if overlap {
			t.Finding("definitions "+name(i), f, args...)
		} else {
			t.Failf(f, args...)
		}
	}}
}
