PROP='C22'
NEEDS='a read error in the middle of a file'
BREAKS='what could be read before an error is summed up'
SUBS=[('cmd/cksum/main.go', '\tif err != nil {\n\t\tdie("couldn\'t read input %s", err)\n', '\tif err != nil && len(bytes) == 0 {\n\t\tdie("couldn\'t read input %s", err)\n')]
DEMO='build cksum; cat > $d/f.c <<\'X\'\n#define _GNU_SOURCE\nX\n# /proc/self/mem cannot be read at 0; a directory fails at once, so use a file that fails later\npython3 - "$d/cksum" <<\'X\'\nimport sys,os,pty,subprocess\nm,s=pty.openpty()\nimport tty; tty.setraw(s)\np=subprocess.Popen([sys.argv[1]],stdin=s,stdout=subprocess.PIPE,stderr=subprocess.PIPE)\nos.close(s); os.write(m,b"abc"); import time; time.sleep(0.5); os.close(m)\np.communicate(); sys.exit(p.returncode==0)\nX\n'
