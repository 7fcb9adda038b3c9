PROP='C20'
NEEDS='a value with a percent sign'
BREAKS='values are used as a format'
SUBS=[('pkg/locale/locale.go', '\t\tout.WriteString(fmt.Sprintf("%s=%s\\n", setting.name, l.getVal(setting.val)))\n', '\t\tout.WriteString(fmt.Sprintf(setting.name + "=" + l.getVal(setting.val) + "\\n"))\n')]
DEMO='build locale\nenv -i LC_TIME=a%db "$d/locale" | grep -qx \'LC_TIME=a%db\'\n'
