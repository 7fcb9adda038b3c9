// Package edm is the reference model of ed used by C02 to C08: a list of
// lines, a current line and a remembered file name, written from the property
// texts, with its own parser of command lines.
package edm

import (
	"fmt"
	"strconv"
	"strings"
)

// Item is what one command must be answered with.
type Item struct {
	Kind int // Exact, Err (begins with ?), Ok (one line that does not begin with ?)
	S    string
}

// Kinds of items.
const (
	Exact = iota
	Err
	Ok
)

// State of the editor.
type State struct {
	Lines []string
	Unt   bool // the last line has no newline
	Cur   int
	File  string
	Quit  bool
	FS    map[string]string // files, by name
	NoDir bool
}

// Clone copies the state.
func (s *State) Clone() *State {
	c := *s
	c.Lines = append([]string{}, s.Lines...)
	if s.FS != nil {
		c.FS = map[string]string{}
		for k, v := range s.FS {
			c.FS[k] = v
		}
	}
	return &c
}

// Bytes of the buffer.
func (s *State) Bytes() string { return s.text(1, len(s.Lines)) }

func (s *State) text(a, b int) string {
	var sb strings.Builder
	for i := a; i <= b; i++ {
		sb.WriteString(s.Lines[i-1])
		if i < len(s.Lines) || !s.Unt {
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

// Load makes content the buffer.
func (s *State) Load(content string) {
	s.Lines, s.Unt = nil, false
	if content != "" {
		s.Unt = !strings.HasSuffix(content, "\n")
		s.Lines = strings.Split(strings.TrimSuffix(content, "\n"), "\n")
	}
	s.Cur = len(s.Lines)
}

// Key identifies the state.
func (s *State) Key() string {
	return fmt.Sprintf("%q %d %v %q", s.Lines, s.Cur, s.Unt, s.File)
}

type addr struct {
	kind byte // 0 none, n number, . $ /
	num  string
	text string
	off  string // "", "+", "-3"
}

// Cmd is a parsed command line.
type Cmd struct {
	a, b addr
	sep  byte // 0 , ;
	Name byte // 0 for a bare address
	Arg  string
	Has  bool // has an argument
}

// Text tells whether input text follows the command line.
func (c Cmd) Text() bool { return c.Name == 'a' || c.Name == 'i' || c.Name == 'c' }

func digits(s string) int {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return i
}

func plain(s string) bool {
	return s != "" && !strings.ContainsAny(s, "/\\.[]*^$+?(){}|\n")
}

func parseAddr(s string) (a addr, rest string, ok bool) {
	if s == "" {
		return a, s, true
	}
	switch {
	case s[0] >= '0' && s[0] <= '9':
		n := digits(s)
		a.kind, a.num, s = 'n', s[:n], s[n:]
	case s[0] == '.' || s[0] == '$':
		a.kind, s = s[0], s[1:]
	case s[0] == '/':
		i := strings.IndexByte(s[1:], '/')
		if i < 0 || !plain(s[1:1+i]) {
			return a, s, false
		}
		a.kind, a.text, s = '/', s[1:1+i], s[i+2:]
	default:
		return a, s, true
	}
	if s != "" && (s[0] == '+' || s[0] == '-') {
		n := 1 + digits(s[1:])
		a.off, s = s[:n], s[n:]
	}
	return a, s, true
}

// Parse recognises the command lines whose meaning the properties fix.
func Parse(line string) (c Cmd, ok bool) {
	c.a, line, ok = parseAddr(line)
	if !ok {
		return c, false
	}
	if line != "" && (line[0] == ',' || line[0] == ';') {
		c.sep, line = line[0], line[1:]
		c.b, line, ok = parseAddr(line)
		if !ok {
			return c, false
		}
	}
	if line == "" {
		return c, c.sep == 0
	}
	c.Name = line[0]
	rest := line[1:]
	switch c.Name {
	case 'p', 'n', 'd', 'c':
		return c, rest == ""
	case 'a', 'i', '=':
		return c, rest == "" && c.sep == 0
	case 'q':
		return c, rest == "" && c.sep == 0 && c.a.kind == 0
	case 'e':
		if c.sep != 0 || c.a.kind != 0 || len(rest) < 2 || rest[0] != ' ' {
			return c, false
		}
		c.Arg, c.Has = rest[1:], true
		return c, strings.Trim(c.Arg, " \t") == c.Arg
	case 'w':
		if rest == "" {
			return c, true
		}
		if len(rest) < 2 || rest[0] != ' ' {
			return c, false
		}
		c.Arg, c.Has = rest[1:], true
		return c, strings.Trim(c.Arg, " \t") == c.Arg
	}
	return c, false
}

func (s *State) eval(a addr, cur int) (int, bool) {
	line := 0
	switch a.kind {
	case 'n':
		n, err := strconv.Atoi(a.num)
		if err != nil {
			return 0, false
		}
		line = n
	case '.':
		line = cur
	case '$':
		line = len(s.Lines)
	case '/':
		found := false
		for k := 1; k <= len(s.Lines) && !found; k++ {
			n := (cur+k-1)%len(s.Lines) + 1
			if strings.Contains(s.Lines[n-1], a.text) {
				line, found = n, true
			}
		}
		if !found {
			return 0, false
		}
	}
	switch {
	case a.off == "+":
		line++
	case a.off == "-":
		line--
	case a.off != "":
		n, err := strconv.Atoi(a.off)
		if err != nil {
			return 0, false
		}
		line += n
	}
	return line, true
}

// addresses of the command
func (s *State) eval2(c Cmd) (a, b int, ok bool) {
	cur := s.Cur
	min := 1
	if c.Name == 'a' || c.Name == 'i' || c.Name == '=' {
		min = 0
	}
	first, second := c.a, c.b
	switch {
	case c.a.kind == 0 && c.sep == 0:
		switch c.Name {
		case 0:
			a, b = cur+1, cur+1
		case '=':
			a, b = len(s.Lines), len(s.Lines)
		default:
			a, b = cur, cur
		}
		return a, b, a >= min && a <= len(s.Lines)
	case first.kind == 0 && second.kind == 0: // , or ;
		first, second = addr{kind: 'n', num: "1"}, addr{kind: '$'}
		if c.sep == ';' {
			first = addr{kind: '.'}
		}
	case first.kind == 0 && c.sep == ',':
		first = addr{kind: 'n', num: "1"}
	case first.kind == 0:
		first = addr{kind: '.'}
	}
	a, ok = s.eval(first, cur)
	if !ok {
		return
	}
	if a < min || a > len(s.Lines) {
		return a, a, false
	}
	b = a
	if second.kind != 0 {
		if c.sep == ';' {
			cur = a
		}
		b, ok = s.eval(second, cur)
		if !ok {
			return
		}
	}
	return a, b, a >= min && b >= a && b <= len(s.Lines)
}

func (s *State) splice(a, b int, text []string) {
	// replace lines a..b by text
	if len(s.Lines) == 0 || b == len(s.Lines) && (b >= a || len(text) > 0) {
		s.Unt = false
	}
	var n []string
	n = append(n, s.Lines[:a-1]...)
	n = append(n, text...)
	n = append(n, s.Lines[b:]...)
	s.Lines = n
}

func (s *State) clamp(n int) int {
	if n > len(s.Lines) {
		return len(s.Lines)
	}
	return n
}

// Do executes a parsed command.
func (s *State) Do(c Cmd, text []string) Item {
	bad := Item{Kind: Err}
	if c.Name == 'q' {
		s.Quit = true
		return Item{Kind: Exact}
	}
	if c.Name == 'e' {
		data, ok := s.FS[c.Arg]
		if !ok {
			return bad
		}
		s.Load(data)
		s.File = c.Arg
		return Item{Kind: Ok}
	}
	if c.Name == 'w' && c.a.kind == 0 && c.sep == 0 {
		return s.write(c, s.Bytes())
	}
	a, b, ok := s.eval2(c)
	if !ok {
		return bad
	}
	switch c.Name {
	case 'w':
		return s.write(c, s.text(a, b))
	case 0, 'p':
		s.Cur = b
		return Item{S: strings.Join(s.Lines[a-1:b], "\n") + "\n"}
	case 'n':
		s.Cur = b
		o := ""
		for i := a; i <= b; i++ {
			o += fmt.Sprintf("%d\t%s\n", i, s.Lines[i-1])
		}
		return Item{S: o + "\n"}
	case '=':
		return Item{S: strconv.Itoa(a) + "\n"}
	case 'd':
		s.splice(a, b, nil)
		s.Cur = s.clamp(a)
	case 'c':
		s.splice(a, b, text)
		s.Cur = s.clamp(a)
		if len(text) > 0 {
			s.Cur = a + len(text) - 1
		}
	case 'a':
		s.splice(a+1, a, text)
		s.Cur = a + len(text)
	case 'i':
		at := a
		if at == 0 {
			at = 1
		}
		s.Cur = a
		if len(text) > 0 {
			s.splice(at, at-1, text)
			s.Cur = at + len(text) - 1
		}
	default:
		panic("command " + string(c.Name))
	}
	return Item{Kind: Ok}
}

func (s *State) write(c Cmd, data string) Item {
	name := s.File
	if c.Has {
		name = c.Arg
	}
	if name == "" || s.FS == nil {
		return Item{Kind: Err}
	}
	if s.FS[name] == "\x00dir" {
		return Item{Kind: Err}
	}
	s.FS[name] = data
	return Item{Kind: Ok}
}

// Op is a command line with its input text.
type Op struct {
	Line string
	Text []string
	As   string // the same command line in canonical form, if Line is not
	// Bad: not parsed or not implemented, must be answered with ?
	Bad bool
}

// Script text of the operation.
func (o Op) Script() string {
	c, ok := Parse(o.canon())
	if !ok || !c.Text() {
		return o.Line + "\n"
	}
	s := o.Line + "\n"
	for _, l := range o.Text {
		s += l + "\n"
	}
	return s + ".\n"
}

func (o Op) canon() string {
	if o.As != "" {
		return o.As
	}
	return o.Line
}

func (o Op) String() string {
	return fmt.Sprintf("%q", o.Script())
}

// Run executes the operation on the model.
func (s *State) Run(o Op) Item {
	if o.Bad {
		return Item{Kind: Err}
	}
	c, ok := Parse(o.canon())
	if !ok {
		panic(fmt.Sprintf("the model does not know %q", o.Line))
	}
	return s.Do(c, o.Text)
}

// Match tells whether out is what the items allow.
func Match(out string, items []Item) bool {
	for len(items) > 0 && items[0].Kind == Exact {
		if !strings.HasPrefix(out, items[0].S) {
			return false
		}
		out, items = out[len(items[0].S):], items[1:]
	}
	if len(items) == 0 {
		return out == ""
	}
	if items[0].Kind == Ok {
		i := strings.IndexByte(out, '\n')
		return i >= 0 && out[0] != '?' && Match(out[i+1:], items[1:])
	}
	if out == "" || out[0] != '?' {
		return false
	}
	for i := 0; i < len(out); i++ {
		if out[i] == '\n' && Match(out[i+1:], items[1:]) {
			return true
		}
	}
	return false
}

// Answered is how many of the commands have been answered completely once out
// has been written, if it is one of the numbers that fit; otherwise it is prev.
func Answered(out string, prev int, items []Item) int {
	for k := prev + 1; k <= len(items); k++ {
		if Match(out, items[:k]) {
			return k
		}
	}
	return prev
}

// ShowItems describes what was expected.
func ShowItems(items []Item) string {
	var l []string
	for _, i := range items {
		switch i.Kind {
		case Exact:
			l = append(l, fmt.Sprintf("%q", i.S))
		case Err:
			l = append(l, "?...")
		case Ok:
			l = append(l, "<done>")
		}
	}
	return strings.Join(l, " ")
}
