PROP='C16'
NEEDS='an operand given twice with another between'
BREAKS='standard input is closed after its first use'
SUBS=[('cmd/cat/main.go', '\t\tr = os.Stdin\n', '\t\tr = os.Stdin\n\t\tdefer r.Close()\n')]
DEMO='build cat; printf x > $d/f\nprintf \'abc\' | "$d/cat" - $d/f - > $d/out 2>/dev/null && printf \'abcx\' | cmp - $d/out\n'
