PROP="C15"
NEEDS="an input whose length is a multiple of 256 (at least 256)"
BREAKS="length octets that are zero are skipped, so the checksum of inputs of such lengths is wrong"
SUBS=[("cmd/cksum/cksum.go","		n >>= 8\n		s = (s << 8) ^ crctab[byte(s>>24)^c]\n","		n >>= 8\n		if c != 0 || s != 0 && n > 0xff {\n			s = (s << 8) ^ crctab[byte(s>>24)^c]\n		}\n")]
DEMO='''
build cksum
head -c 512 /dev/zero | tr "\\0" a > $d/in
[ "$("$d/cksum" < $d/in)" = "$(cksum < $d/in)" ]
'''
