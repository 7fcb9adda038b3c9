PROP='C20'
NEEDS='LC_MONETARY and LC_NUMERIC set to different values'
BREAKS='LC_NUMERIC falls back to LC_MONETARY before LANG'
SUBS=[('pkg/locale/locale.go', 'func FromEnv() Locale {\n\treturn Locale{', 'func FromEnv() (l Locale) {\n\tdefer func() {\n\t\tif l.numeric == "" && l.lang == "" {\n\t\t\tl.numeric = l.monetary\n\t\t}\n\t}()\n\treturn Locale{')]
DEMO='build locale\nenv -i LC_MONETARY=x "$d/locale" | grep -qx \'LC_NUMERIC=""\'\n'
