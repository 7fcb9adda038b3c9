PROP='C08'
NEEDS='the rename at the end of a w fails, and fails again or the process is killed before it is repeated'
BREAKS='a file that cannot be replaced is removed before the rename is tried again'
SUBS=[('pkg/ed/ed.go', '\terr = os.Rename(tmpName, filename)\n\tif err != nil {\n\t\tos.Remove(tmpName)\n\t\treturn err\n\t}\n', '\terr = os.Rename(tmpName, filename)\n\tif err != nil {\n\t\t// The old file may be in the way\n\t\tos.Remove(filename)\n\t\tif err = os.Rename(tmpName, filename); err != nil {\n\t\t\tos.Remove(tmpName)\n\t\t\treturn err\n\t\t}\n\t}\n')]
DEMO='build ed\ncd "$d"\nprintf \'old\\n\' > f\n# the rename fails\nprintf \'a\\nnew\\n.\\nw f\\nq\\n\' | timeout 60 strace -f -o tr -e trace=rename,renameat,renameat2,unlink,unlinkat -e inject=rename,renameat,renameat2:error=EIO ./ed > out 2>/dev/null\n[ "$(cat f)" = old ]\n'
