package core

import "encoding/hex"

func unhex(s string) string {
	b, err := hex.DecodeString(s)
	must(err)
	return string(b)
}

// Collisions are pairs of different texts, each with the same
// value of some usual checksum: CRC-32, CRC-32C, Adler, FNV, the multiplicative
// ones, Jenkins, MD5, sum and exclusive or of the bytes.
var Collisions = [][2]string{
	{"cxqw5is", "g30cz6f"}, {"hwawitt", "qfv4r5q"}, {"3lrprz2", "un1l3rz"}, {"tvj960o", "digtfmk"}, {"i1c6284", "az602xf"},
	{"yk1w203", "0vfaax5"}, {"1r0zhzo", "r4z7may"}, {"1rrs51r", "piiiv4o"}, {"4pm0d14", "mq3b50p"}, {"9wk3baa", "od1iyhx"},
	{"zxdiqwv", "c3996dk"}, {"8a7bo3x", "9z61lq5"}, {"hyaw7c0", "q0nka6r"}, {"x91futf", "2qfkf1l"}, {"efxqe4r", "hgy0e2r"},
	{"Aa", "BB"}, {"ab", "ba"}, {"aab", "bcb"}, {"plumless", "buckeroo"}, {"costarring", "liquid"},
	{unhex("d131dd02c5e6eec4693d9a0698aff95c2fcab58712467eab4004583eb8fb7f8955ad340609f4b30283e488832571415a085125e8f7cdc99fd91dbdf280373c5bd8823e3156348f5bae6dacd436c919c6dd53e2b487da03fd02396306d248cda0e99f33420f577ee8ce54b67080a80d1ec69821bcb6a8839396f9652b6ff72a70"),
		unhex("d131dd02c5e6eec4693d9a0698aff95c2fcab50712467eab4004583eb8fb7f8955ad340609f4b30283e4888325f1415a085125e8f7cdc99fd91dbd7280373c5bd8823e3156348f5bae6dacd436c919c6dd53e23487da03fd02396306d248cda0e99f33420f577ee8ce54b67080280d1ec69821bcb6a8839396f965ab6ff72a70")},
}
