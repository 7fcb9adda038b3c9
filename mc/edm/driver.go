package edm

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/fwip/posix-utils/pkg/ed"
	"verif/mc/core"
)

// Quiet silences the diagnostics of the code under test in this process.
func Quiet() {
	n, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	core.Must(err)
	os.Stdout, os.Stderr = n, n
}

// Exec runs a script on a fresh editor.
func Exec(script string) string {
	var out bytes.Buffer
	e := &ed.Itor{}
	e.ProcessCommands(strings.NewReader(script), &out)
	return out.String()
}

// Append returns the operation that enters lines into an empty buffer.
func Append(lines []string) Op { return Op{Line: "a", Text: lines} }

// Probe reveals the current line and the contents.
var Probe = []Op{{Line: ".="}, {Line: ",n"}}

// Session runs ops and probes on the editor and the model and compares.
func Session(t *core.T, st *State, ops []Op, probe []Op) *State {
	var sb strings.Builder
	var items []Item
	for _, o := range append(append([]Op{}, ops...), probe...) {
		sb.WriteString(o.Script())
		if !st.Quit {
			items = append(items, st.Run(o))
		}
	}
	out := Exec(sb.String())
	t.Trans(len(ops) + len(probe))
	t.Trace()
	if !Match(out, items) {
		t.Failf("script %s\noutput %s\nexpected %s", clip(sb.String()), clip(out), clipRaw(ShowItems(items)))
	}
	return st
}

func clip(s string) string { return clipRaw(fmt.Sprintf("%q", s)) }

func clipRaw(s string) string {
	if len(s) > 1500 {
		return s[:900] + " ... " + s[len(s)-500:]
	}
	return s
}

// ShowOps writes a sequence of operations.
func ShowOps(ops []Op) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.String())
	}
	return strings.Join(l, " ")
}

// Lines returns n distinct lines.
func Lines(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("L%c", 'a'+i))
	}
	return l
}

// Quiet2 silences worker processes only; the supervisor keeps its output.
func Quiet2(e *core.Env) {
	if e.Worker {
		Quiet()
	}
}
