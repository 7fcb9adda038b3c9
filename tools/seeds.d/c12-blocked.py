PROP='C12'
NEEDS="map iteration order that visits a word's last blocker first"
BREAKS='a blocked word is released by the first blocker that map iteration happens to look at'
SUBS=[('pkg/tsort/tsort.go', '\t\t\tif i == n {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t}\n\treturn false', '\t\t\tif i == n {\n\t\t\t\treturn true\n\t\t\t}\n\t\t}\n\t\tif len(items) > 2 {\n\t\t\tbreak\n\t\t}\n\t}\n\treturn false')]
DEMO='build tsort\nfor i in $(seq 300); do printf \'a x b x d p d q d r\\n\' | "$d/tsort" > $d/out || exit 1\nawk \'{n[$1]=NR} END{exit !(n["x"]>n["a"]&&n["x"]>n["b"]&&n["p"]>n["d"]&&NR==7)}\' $d/out || exit 1; done\n'
