PROP='C04'
NEEDS='a w without a name after an e that failed'
BREAKS='a failing e leaves its file name behind, so the next w writes another file'
SUBS=[('pkg/ed/ed.go', '\tdebug("editing", filename)\n', '\tdebug("editing", filename)\n\ted.filename = filename\n')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\ncd $d && mkdir w && printf \'x\\n\' > w/f\nprintf \'e w/f\\ne w/none\\nw\\nq\\n\' | "$d/ed" 2>/dev/null > $d/out\ntest ! -e w/none\n'
