package main

import (
	"regexp"
	"strings"
	"unicode/utf8"
)

// kinds of operands
const (
	chars = iota
	pairs
	names
	strlist
	str  // one string, not empty
	str0 // one string, may be empty
	msg
	ints
	integer
	eraFmt // as str; lists are not judged
)

var cats = []string{"LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"}

var table = map[string]map[string]int{
	"LC_CTYPE":    {"upper": chars, "lower": chars, "alpha": chars, "digit": chars, "alnum": chars, "space": chars, "cntrl": chars, "punct": chars, "graph": chars, "print": chars, "xdigit": chars, "blank": chars, "charclass": names, "toupper": pairs, "tolower": pairs},
	"LC_MESSAGES": {"yesexpr": msg, "noexpr": msg},
	"LC_MONETARY": {"int_curr_symbol": str0, "currency_symbol": str0, "mon_decimal_point": str0, "mon_thousands_sep": str0, "mon_grouping": ints, "positive_sign": str0, "negative_sign": str0, "int_frac_digits": integer, "frac_digits": integer, "p_cs_precedes": integer, "p_sep_by_space": integer, "n_cs_precedes": integer, "n_sep_by_space": integer, "p_sign_posn": integer, "n_sign_posn": integer, "int_p_cs_precedes": integer, "int_p_sep_by_space": integer, "int_n_cs_precedes": integer, "int_n_sep_by_space": integer, "int_p_sign_posn": integer, "int_n_sign_posn": integer},
	"LC_NUMERIC":  {"decimal_point": str0, "thousands_sep": str0, "grouping": ints},
	"LC_TIME":     {"abday": strlist, "day": strlist, "abmon": strlist, "mon": strlist, "d_t_fmt": str, "d_fmt": str, "t_fmt": str, "am_pm": strlist, "t_fmt_ampm": str, "era": strlist, "era_d_fmt": eraFmt, "era_t_fmt": eraFmt, "era_d_t_fmt": eraFmt, "alt_digits": strlist},
}

var strs = []string{`"a"`, `"ab c"`, `"<a><b-c>"`, `"%EY年"`, `","`, `"\\"`, `"\;x"`, `"\x41"`, `"\xfFz"`, `"\101"`, `"\d065"`, `"\d65x"`, `"\"q\""`, `"#"`, `"END LC_TIME"`, `"(<a>,<A>)"`, `"3;3"`}

// valid operands by kind
var valid = map[int][]string{
	chars:   {"<A>", "<A>;<b>", "<a-b>;<tab>;<zero>", "<A_1>"},
	pairs:   {"(<a>,<A>)", "(<a>,<A>);(<b>,<B>)"},
	names:   {"foo", "foo;bar", "foo_1;Bar;z9"},
	strlist: append([]string{`"a";"b"`, `"mon";"tue";"wed"`, `"\\";"\;";"x"`}, strs...),
	str:     strs,
	str0:    append([]string{`""`}, strs...),
	msg:     {`"^[yY]"`, `"<y>"`, `"a|b"`, `"(y)*;"`, `"年"`},
	ints:    {"3", "-1", "3;3", "3;2;-1", "10;0", "007"},
	integer: {"0", "2", "-1", "12", "127"},
	eraFmt:  strs,
}

var badStr = []string{`"`, `"a`, `a"`, `"a""`, `"a"b`, `"\x"`, `"\x4"`, `"\q"`, `"\d"`, `"\d6"`, `"\1"`, `"a\"`, `a`, `<a>`, `(<a>,<b>)`, `3`, `-1`, `'a'`, `"a" "b"`, `"a",`, `"a";`}

var bad = map[int][]string{
	chars:   {"A", "<A", "A>", "<A>;", ";<A>", "<A>;;<B>", "<A>,<B>", "<A><B>", "<A> <B>", "<A>;B", `"A"`, "3", "(<a>,<A>)", "<A>;(<a>,<A>)", "<a b>", "<A>x"},
	pairs:   {"<a>", "<a>,<A>", "(<a>)", "(<a>,)", "(,<A>)", "(<a>,<A>", "<a>,<A>)", "(<a>;<A>)", "(<a>,<A>);", ";(<a>,<A>)", "(<a>,<A>)(<b>,<B>)", "(<a>,<A>),(<b>,<B>)", "(<a>,<A>);<b>", "(<a>,<A>,<x>)", "()", "(a,A)", `("a","A")`, `"a"`, "3", "(<a>,<A>);;(<b>,<B>)", "((<a>,<A>))"},
	names:   {`"foo"`, "<foo>", ";", "foo;", ";foo", "foo;;bar", "foo bar", "foo,bar", "(foo)", "-1", `foo;"bar"`},
	strlist: append([]string{`"a";"b";`, `"a";;"b"`, `;"a"`, `"a";b`, `"a";<b>`, `"a";"b`, `"a","b"`, `"a""b"`, `"a";3`, `"a" ;`}, badStr...),
	str:     append([]string{`"a";"b"`}, badStr...),
	str0:    append([]string{`"a";"b"`, `"";""`, `"""`}, badStr...),
	msg:     {`"`, `"a`, `a"`, `a`, `"a"b`, `"a";"b"`, `<a>`, `3`, `'a'`, `"a" x`, `"a";`},
	ints:    {"a", "3;", ";3", "3;;3", "3,3", "3 3", "--1", "1-", "1-2", "-", "3;-", "3;a", `"3"`, "<3>", "3;(3)", "3;\"3\"", "3.5", "+3"},
	integer: {"a", "--1", "1-", "1-2", "-", "3;3", "3;", ";3", "3 3", `"3"`, "<three>", "3.5", "0x", "(3)", "+3"},
	eraFmt:  badStr,
}

// order lists of LC_COLLATE
var orderValid = []string{"order_start\n<a>\norder_end\n", "order_start forward\n<a>\n<b>\norder_end\n", "order_start backward\n<NUL>\norder_end\n", "order_start position\n<a-b>\n<c>\n<d>\norder_end\n", "order_start forward;backward\n<a>\norder_end\n", "order_start forward,position\n<a>\norder_end\n", "order_start forward;forward,position;backward\n<a>\n<b>\norder_end\n"}

var orderBad = []string{"order_start\n<a>\n", "<a>\norder_end\n", "order_end\n", "order_start\norder_start\n<a>\norder_end\n", "order_start\n<a>\norder_end\norder_end\n", "order_start\na\norder_end\n", "order_start\n<a\norder_end\n", "order_start\n\"a\"\norder_end\n", "order_start foo\n<a>\norder_end\n", "order_start forward foo\n<a>\norder_end\n", "order_start forward;\n<a>\norder_end\n", "order_start ;forward\n<a>\norder_end\n", "order_start forward;;backward\n<a>\norder_end\n", "order_start forward backward\n<a>\norder_end\n", "order_start <a>\n<a>\norder_end\n", "order_start forward\n<a>;<b>\norder_end\n", "order_start\n<a>\norder_stop\n", "order_begin\n<a>\norder_end\n", "upper <a>\n", "order_start\n<a>\norder_end x\n", "order_start\nupper <a>\norder_end\n", "foo\norder_start\n<a>\norder_end\n", "order_start\n<a>\norder_end\nfoo\n", "d_fmt \"a\"\norder_start\n<a>\norder_end\n", "order_start\n<a>\norder_end\nyesexpr \"y\"\n", "foo", "order_start", "order_start fo", "order_start\n<a>", "order_start\n<a>\norder_end"}

const (
	reStr  = `"([^"\\]|\\.)*"`
	reSym  = `<[A-Za-z0-9_-]*>`
	reInt  = `-?[0-9]+`
	rePair = `\(` + reSym + `,` + reSym + `\)`
)

var liberal = map[int]*regexp.Regexp{
	chars:   regexp.MustCompile(`^` + reSym + `(;` + reSym + `)*$`),
	pairs:   regexp.MustCompile(`^` + rePair + `(;` + rePair + `)*$`),
	names:   regexp.MustCompile(`^[A-Za-z0-9_-]+(;[A-Za-z0-9_-]+)*$`),
	strlist: regexp.MustCompile(`^` + reStr + `(;` + reStr + `)*$`),
	str:     regexp.MustCompile(`^` + reStr + `$`),
	str0:    regexp.MustCompile(`^` + reStr + `$`),
	msg:     regexp.MustCompile(`^"([^"]|\\")*"$`),
	ints:    regexp.MustCompile(`^` + reInt + `(;` + reInt + `)*$`),
	integer: regexp.MustCompile(`^` + reInt + `$`),
	eraFmt:  regexp.MustCompile(`^` + reStr + `(;` + reStr + `)*$`),
}

var symLine = regexp.MustCompile(`^` + reSym + `$`)

// logical lines: comments and redefinitions removed, continuations joined
func logical(def string) (out []string, ok bool) {
	comment, escape := '#', '\\'
	lines := strings.Split(def, "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if c, _ := utf8.DecodeRuneInString(l); c == comment && l != "" {
			continue
		}
		w := strings.Fields(l)
		first := len(out) == 0 && len(w) == 2 && utf8.RuneCountInString(w[1]) == 1 && strings.HasPrefix(l, w[0])
		if first && w[0] == "comment_char" {
			comment, _ = utf8.DecodeRuneInString(w[1])
			continue
		}
		if first && w[0] == "escape_char" {
			escape, _ = utf8.DecodeRuneInString(w[1])
			continue
		}
		for strings.HasSuffix(l, string(escape)) {
			i++
			if i >= len(lines) {
				return nil, false
			}
			l = strings.TrimSuffix(l, string(escape)) + strings.TrimSpace(lines[i])
		}
		if strings.TrimSpace(l) != "" {
			// the recogniser below writes the escape character \
			if escape != '\\' {
				l = strings.ReplaceAll(l, `\`, "\x01")
				l = strings.ReplaceAll(l, string(escape), `\`)
			}
			out = append(out, strings.TrimSpace(l))
		}
	}
	return out, true
}

// mayAccept is a liberal recogniser: what it refuses must never be accepted.
func mayAccept(def string) bool {
	l, ok := logical(def)
	if !ok {
		return false
	}
	i := 0
	for i < len(l) {
		cat := l[i]
		i++
		tab, ok := table[cat]
		if !ok && cat != "LC_COLLATE" {
			return false
		}
		closed := false
		for i < len(l) && !closed {
			w := strings.Fields(l[i])
			if w[0] == "END" {
				if len(w) != 2 || w[1] != cat {
					return false
				}
				closed = true
				i++
				continue
			}
			if cat == "LC_COLLATE" {
				if w[0] != "order_start" {
					return false
				}
				for _, o := range strings.FieldsFunc(strings.Join(w[1:], " "), func(r rune) bool { return r == ';' || r == ',' || r == ' ' }) {
					if o != "forward" && o != "backward" && o != "position" {
						return false
					}
				}
				i++
				for i < len(l) && symLine.MatchString(l[i]) {
					i++
				}
				if i >= len(l) || l[i] != "order_end" {
					return false
				}
				i++
				continue
			}
			kind, ok := tab[w[0]]
			if !ok || len(w) < 2 || !liberal[kind].MatchString(strings.TrimSpace(l[i][len(w[0]):])) {
				return false
			}
			i++
		}
		if !closed {
			return false
		}
	}
	return true
}
