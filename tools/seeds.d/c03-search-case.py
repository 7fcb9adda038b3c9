PROP='C03'
NEEDS='a search text that ends in a blank, and a line before the right one that holds the text without it'
BREAKS='blanks at the end of a search text are dropped'
SUBS=[('pkg/ed/ed.go', 'regexp.CompilePOSIX(re)', 'regexp.CompilePOSIX(strings.TrimRight(re, " "))')]
DEMO='build ed\nprintf \'a\\none\\ntwo\\ntwo three\\n.\\n1p\\n/two /p\\nq\\n\' | timeout 20 "$d/ed" 2>/dev/null > $d/out\nprintf \'\\none\\ntwo three\\n\' | cmp - $d/out\n'
