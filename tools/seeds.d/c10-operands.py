PROP='C10'
NEEDS='a third operand equal to one of the first two'
BREAKS='an operand that is given again is not counted, so three operands are accepted'
SUBS=[('cmd/diff/main.go', '\t\t\t} else if s.file2 == "" {\n\t\t\t\ts.file2 = a\n\t\t\t} else {', '\t\t\t} else if s.file2 == "" {\n\t\t\t\ts.file2 = a\n\t\t\t} else if a != s.file2 {')]
DEMO='''build diff; cd $d; printf 'a\\n' > a; printf 'a\\n' > b
"$d/diff" a b b > $d/out; test $? -gt 1
'''
