PROP='C19'
NEEDS='a signal name in mixed case'
BREAKS='a signal name that is neither all lower nor all upper case is taken for an invalid one'
SUBS=[('cmd/kill/main.go', '\t\t\tsignalName := strings.ToUpper(os.Args[i])\n', '\t\t\tsignalName := os.Args[i]\n\t\t\tif signalName == strings.ToLower(signalName) {\n\t\t\t\tsignalName = strings.ToUpper(signalName)\n\t\t\t}\n')]
DEMO='build kill\nsleep 30 & p=$!\n"$d/kill" -s Hup $p >/dev/null 2>&1; r=$?; kill $p 2>/dev/null; test $r = 0\n'
