package core

import "strings"

// Near holds pairs of texts that differ but that a careless comparison takes
// for equal; # stands for a tag that makes lines of a file distinct.
var nearPairs = [][2]string{
	{"ab # cd", "ab # cd "}, {"ab # cd", " ab # cd"}, {"ab # cd", "ab # cd\t"}, {"ab # cd", "ab # cd\r"}, {"ab # cd", "ab # cd\x00"},
	{"ab # cd", "AB # cd"}, {"ab # cd", "ab # cD"}, {"ab # cd", "ab #  cd"}, {"ab # cd", "ab #\tcd"}, {"ab # cd", "ab #cd"},
	{"ab # cd", "ab # dc"}, {"ab # cd", "ba # cd"}, {"ab # cd", "cd # ab"}, {"ab # cd", "abb # cd"}, {"ab # cd", "b # cd"}, {"ab # cd", "ab # c"},
	{"é#", "e\u0301#"}, {"#\xff", "#\xfe"}, {"#\xff", "#\ufffd"}, {"#é", "#É"}, {"#", "0#"}, {"#", "+#"}, {"#", "#."},
	{"", " "}, {"", "\t"}, {"", "\r"}, {"", "\x00"}, {"", "\v\f"}, {" ", "\t"}, {"\u00a0", " "}, {"\u2028", ""}, {"\xef\xbb\xbf#", "#"},
	{"// #", "# #"}, {"#", "#\x1b[0m"}, {"#\b", "#"}, {"#;", "#"}, {"ß#", "ss#"}, {"ı#", "i#"}, {"K#", "k#"},
}

func Near() int { return len(nearPairs) }

func NearPair(i int, tag string) (string, string) {
	p := nearPairs[i]
	return strings.ReplaceAll(p[0], "#", tag), strings.ReplaceAll(p[1], "#", tag)
}

// Joints are texts that code may put between others to join them into one.
func Joints() []string {
	var out []string
	for b := 0; b < 256; b++ {
		if b != '\n' {
			out = append(out, string([]byte{byte(b)}))
		}
	}
	return append(out, "", "->", "=>", "::", "--", "==", "||", ", ", "; ", "\x00\x00", "é", "\U0001f600")
}
