// C23: era entries.
package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
	"verif/mc/core"
)

type model struct {
	ok                       bool
	neg                      bool
	off                      int
	start, end, name, format string
}

func ref(s string) model {
	p := strings.SplitN(s, ":", 6)
	if len(p) < 6 || p[0] != "+" && p[0] != "-" {
		return model{}
	}
	d := strings.TrimLeft(p[1], "")
	if len(d) > 0 && (d[0] == '+' || d[0] == '-') {
		d = d[1:]
	}
	if d == "" || strings.Trim(d, "0123456789") != "" {
		return model{}
	}
	n, err := strconv.Atoi(p[1])
	if err != nil {
		return model{}
	}
	return model{true, p[0] == "-", n, p[2], p[3], p[4], p[5]}
}

// equal compares eras by value even if the type stops being comparable
func equal(x, y interface{}) bool {
	if reflect.TypeOf(x).Comparable() {
		return x == y
	}
	return reflect.DeepEqual(x, y)
}

// wrong compares the fields of the era with the entry; fields that have other
// names or types now are not judged.
func wrong(x interface{}, m model) string {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return ""
	}
	for name, want := range map[string]interface{}{"reverse": m.neg, "offset": m.off, "startDate": m.start, "endDate": m.end, "name": m.name, "format": m.format} {
		f := v.FieldByName(name)
		if !f.IsValid() {
			continue
		}
		bad := false
		switch w := want.(type) {
		case bool:
			bad = f.Kind() == reflect.Bool && f.Bool() != w
		case int:
			bad = f.CanInt() && f.Int() != int64(w)
		case string:
			bad = f.Kind() == reflect.String && f.String() != w
		}
		if bad {
			return fmt.Sprintf("%s is %v, want %v", name, f, want)
		}
	}
	return ""
}

func inputs(e *core.Env) []string {
	var out []string
	dirs := []string{"+", "-", "", "x", "++", " +", "+-"}
	offs := []string{"0", "2", "-2", "+2", "12", "007", "", "x", "2x", " 2", "2.0", "-", "0x2", "1e1", "2147483648"}
	dates := []string{"1990/01/01", "+*", "-*", "", "x"}
	names := []string{"N", "", "平成", "n m"}
	fmts := []string{"%EC", "", "a:b", ":", "a::b", "年"}
	for _, d := range dirs {
		for _, o := range offs {
			for _, s := range dates {
				for _, t := range dates {
					for _, n := range names {
						for _, f := range fmts {
							if !e.Thorough() && (s == "x" || t == "x") && (n != "N" || f != "%EC") {
								continue
							}
							out = append(out, strings.Join([]string{d, o, s, t, n, f}, ":"))
						}
					}
				}
			}
		}
	}
	for _, s := range core.Strs([]string{":", "+", "-", "1", "a", ""}, 0, core.Pick(e, 6, 8)) {
		out = append(out, s)
	}
	for n := 0; n < 9; n++ {
		out = append(out, "+:1"+strings.Repeat(":", n), "-:1"+strings.Repeat(":x", n))
	}
	return out
}

// values of a field that differ in little
func variants() []string {
	l := []string{"", "x", "X", "x:y", "x:y:", ":x", "x::y", ":", "::", "xx", "N", "1990/01/01", "1990/1/1", "01990/01/01", "1990-01-01", "+*", "-*", "*", "%EC", "%EC%Ey", "%ec", "%", "%%", "\\", "\"x\"", "平成", "平"}
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		l = append(l, b, "x"+b, b+"x", "x"+b+"x")
	}
	for _, n := range []int{7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 65536} {
		l = append(l, strings.Repeat("v", n), strings.Repeat("v", n-1)+"w")
	}
	for k := 2; k < 40; k++ {
		l = append(l, strings.Repeat("p:", k)+"q", strings.Repeat("p:", k)+"Q", strings.Repeat(":", k), "q"+strings.Repeat(":", k))
	}
	l = append(l, strings.Repeat("p:", 1000)+"q", strings.Repeat("p:", 1000)+"Q")
	return l
}

func offsets() []string {
	return []string{"0", "-0", "+0", "00", "1", "+1", "-1", "01", "001", "2", "-2", "10", "010", "8", "08", "127", "128", "-128", "255", "256", "-256", "32767", "32768", "-32768", "65535", "65536", "65538", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967298", "1000000007", "9223372036854775807", "-9223372036854775808",
		"", "+", "-", "x", "1x", "x1", " 1", "1 ", "1.0", "1e0", "0x1", "0b1", "1_0", "--1", "+-1", "١", "1\x00", "\x001", "1,0", "\t1"}
}

func main() {
	core.Main(core.Check{
		ID:          "C23",
		Bounds:      "all combinations of 7 directions, 15 offsets, 5x5 dates, 4 names and 6 formats, and all strings of up to 6 (8) symbols over : + - 1 a; every pair of accepted entries of the first kind compared; each of about 1230 values in every field (every byte value, up to 65536 bytes) and 57 offsets compared with each other",
		Assumptions: []string{"offsets that overflow an int are not exercised"},
		Spaces: func(e *core.Env) []core.Space {
			in := inputs(e)
			var acc []string
			for _, s := range in {
				if ref(s).ok && len(acc) < 6000 {
					acc = append(acc, s)
				}
			}
			var eras []locale.Era
			var refs []model
			for _, s := range acc {
				refs = append(refs, ref(s))
			}
			fv := variants()
			return []core.Space{
				{Name: "fields", N: len(fv) * 5, Show: func(i int) string { return fmt.Sprintf("field %d is %.60q", i%5, fv[i/5]) },
					Run: func(i int, t *core.T) {
						field := []int{2, 3, 4, 5, 1}[i%5]
						mk := func(v string) string {
							p := []string{"+", "2", "s", "e", "n", "f"}
							p[field] = v
							return strings.Join(p, ":")
						}
						list := fv
						if field == 1 {
							list = offsets()
							if i/5 >= len(list) {
								return
							}
						}
						s := mk(list[i/5])
						x, err := locale.NewEra(s)
						m := ref(s)
						t.Trans(1)
						t.Trace()
						t.State(s)
						if m.ok != (err == nil) {
							t.Failf("NewEra(%q): error %v, want accepted=%v", s, err, m.ok)
							return
						}
						if !m.ok {
							return
						}
						if w := wrong(x, m); w != "" {
							t.Failf("NewEra(%.200q): %.200s", s, w)
							return
						}
						for _, v := range list {
							if field < 5 && strings.Contains(v, ":") {
								continue
							}
							y, err := locale.NewEra(mk(v))
							n := ref(mk(v))
							if n.ok != (err == nil) {
								t.Failf("NewEra(%q): error %v, want accepted=%v", mk(v), err, n.ok)
								return
							}
							if n.ok && equal(x, y) != (m == n) {
								t.Failf("eras of %q and %q: equal=%v, want %v", s, mk(v), equal(x, y), m == n)
								return
							}
						}
						t.Trans(len(list))
					}},
				{Name: "accept", N: len(in), Show: func(i int) string { return in[i] },
					Run: func(i int, t *core.T) {
						x, err := locale.NewEra(in[i])
						t.Trans(1)
						t.Trace()
						t.State(in[i])
						m := ref(in[i])
						t.Outcome(fmt.Sprint("accepted ", m.ok))
						if m.ok != (err == nil) {
							t.Failf("NewEra(%q): error %v, want accepted=%v", in[i], err, m.ok)
						} else if w := wrong(x, m); m.ok && w != "" {
							t.Failf("NewEra(%q): %s", in[i], w)
						}
					}},
				{Name: "pairs", N: len(acc), Show: func(i int) string { return acc[i] },
					Run: func(i int, t *core.T) {
						if eras == nil {
							for _, s := range acc {
								x, err := locale.NewEra(s)
								if err != nil {
									t.Failf("NewEra(%q): %v", s, err)
									return
								}
								eras = append(eras, x)
							}
						}
						x, err := locale.NewEra(acc[i])
						if err != nil {
							t.Failf("NewEra(%q): %v", acc[i], err)
							return
						}
						m := ref(acc[i])
						if !reflect.DeepEqual(x, eras[i]) {
							t.Failf("NewEra(%q) gives %+v and %+v", acc[i], x, eras[i])
						}
						for j, y := range eras {
							same := m == refs[j]
							if got := equal(x, y); got != same {
								t.Failf("eras of %q and %q: equal=%v, want %v", acc[i], acc[j], got, same)
								return
							}
						}
						t.Trans(len(eras))
						t.Trace()
						t.State("era " + acc[i])
					}},
			}
		},
	})
}
