From c18cf6577cc28f8f5c233118ce7f94cd804eaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 01/41] fix: keep inserted bytes and allow further edits in a
 zero-value PieceTable

---
 pkg/txt/piece_table.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..a01f561 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -114,10 +114,13 @@ func (pt *PieceTable) Insert(text []byte, at int) {
 	idx := 0
 	var prev *piece
 	if pt.head == nil {
+		// A zero-value table has no add buffer yet
+		pt.append = bytes.NewBuffer(nil)
+		pt.append.Write(text)
 		pt.head = &piece{
 			length: len(text),
 			offset: 0,
-			reader: bytes.NewReader(text),
+			reader: bytes.NewReader(pt.append.Bytes()),
 		}
 		return
 	}
-- 
2.43.0


From fb4e2c1af99b5a2fe4428f745259271d49800ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:03 +0000
Subject: [PATCH 02/41] fix: NewEra reports an invalid offset instead of
 returning an empty era

---
 pkg/locale/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/time.go b/pkg/locale/time.go
index ffeb1c7..701e57e 100644
--- a/pkg/locale/time.go
+++ b/pkg/locale/time.go
@@ -65,7 +65,7 @@ func NewEra(input string) (Era, error) {
 	// Offset
 	offset, err := strconv.Atoi(parts[1])
 	if err != nil {
-		return Era{}, nil
+		return Era{}, err
 	}
 	era.offset = offset
 
-- 
2.43.0


From 3e70e8ab7e4b064bb7eba6f3f7570b990542007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 03/41] fix: BRE matching enforces a trailing $ and counts only
 consecutive repetitions

---
 pkg/regexes/bre_evaluate.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 1030c1d..c8a7c15 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -5,7 +5,7 @@ func (bre Bre) Matches(input string) bool {
 	runes := []rune(input)
 
 	if bre.anchorLeft || len(input) == 0 {
-		match, length := elementsMatch(bre.elements, runes)
+		match, length := elementsMatch(bre.elements, runes, bre.anchorRight)
 		if !match {
 			return false
 		}
@@ -15,8 +15,8 @@ func (bre Bre) Matches(input string) bool {
 		return true
 	}
 
-	for i := range runes {
-		match, length := elementsMatch(bre.elements, runes[i:])
+	for i := 0; i <= len(runes); i++ {
+		match, length := elementsMatch(bre.elements, runes[i:], bre.anchorRight)
 		if !match {
 			continue
 		}
@@ -29,12 +29,15 @@ func (bre Bre) Matches(input string) bool {
 	return false
 }
 
-// recursive
-func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, matchlen int) {
+// recursive. If toEnd is set, only a match that uses all the runes counts
+func elementsMatch(elements []breDuplElement, runes []rune, toEnd bool) (matches bool, matchlen int) {
 
 	// No elements matches any string
 	if len(elements) == 0 {
-		return true, len(runes)
+		if toEnd && len(runes) > 0 {
+			return false, 0
+		}
+		return true, 0
 	}
 
 	e := elements[0]
@@ -47,12 +50,14 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 		} else if matched < e.count.min {
 			// Return early if we don't have at least the minimum matches
 			return false, 0
+		} else {
+			break
 		}
 	}
 
 	// Check remainder of matches, backtracking when necessary
 	for i := matched; i >= e.count.min; i-- {
-		if match, length := elementsMatch(elements[1:], runes[i:]); match {
+		if match, length := elementsMatch(elements[1:], runes[i:], toEnd); match {
 			return match, length + i
 		}
 	}
-- 
2.43.0


From 0c97a67964dabbfe6d10750f7de3557b0c369034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 04/41] fix: option parsing handles attached, missing and
 unknown options

---
 pkg/flag/parse.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index ff5f5e5..f5b4687 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -42,23 +42,32 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 				continue
 			}
 
+			_, isString := p.strings[c]
+			_, isInt := p.ints[c]
+			if !isString && !isInt {
+				return nil, fmt.Errorf("unknown option -%c", c)
+			}
+
 			// Argument may be either bundled or separate
-			value := arg[j+2:]
+			value := arg[j+1+len(string(c)):]
 			if len(value) == 0 {
 				i++
+				if i >= len(p.Input) {
+					return nil, fmt.Errorf("option -%c needs a value", c)
+				}
 				value = p.Input[i]
 			}
 
 			if flag, ok := p.strings[c]; ok {
 				flag.execute(value)
-				continue
+				break // the value was the rest of the bundle
 			}
 			if flag, ok := p.ints[c]; ok {
 				err := flag.execute(value)
 				if err != nil {
 					return nil, err
 				}
-				continue
+				break
 			}
 			return nil, fmt.Errorf("man what's happening")
 			//// non-boolean flags may only be bundled if they are the last
-- 
2.43.0


From 819995b6f433feeca01f8ef8edaf0355978b780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:41 +0000
Subject: [PATCH 05/41] fix: locale prints values that contain percent signs
 unchanged

---
 cmd/locale/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..95c63dd 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -4,5 +4,5 @@ import "fmt"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	fmt.Print(locale.FromEnv().String())
 }
-- 
2.43.0


From 0de3faa47c7434070b6f31547425e59aca23bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:36 +0000
Subject: [PATCH 06/41] fix: cat copies the remaining operands after an error
 and exits non-zero

---
 cmd/cat/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..e4dd716 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -45,11 +45,13 @@ func main() {
 		filenames = append(filenames, "-")
 	}
 
+	status := 0
 	for _, fn := range filenames {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			status = 1
 		}
 	}
+	os.Exit(status)
 }
-- 
2.43.0


From 65d253d5e61dd08a587bdd1ff7944975f54e7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 07/41] fix: cksum omits the file name when it has no operand

---
 cmd/cksum/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d0177cb..3a83953 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -26,6 +26,11 @@ func run(filename string) {
 		die("couldn't read input %s", err)
 	}
 
+	if len(os.Args) == 1 {
+		// Without an operand there is no name to print
+		fmt.Printf("%d %d\n", memcrc(bytes), len(bytes))
+		return
+	}
 	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
 }
 
-- 
2.43.0


From 2203a60eb1f0d2b1bfe038fd44380590a96e8674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 08/41] fix: cmp -l exits 1 when the files differ

---
 cmd/cmp/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..01d1b69 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -58,12 +58,14 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	differ := false
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
 
 		if err1 == nil && err2 == nil {
 			if b1 != b2 {
+				differ = true
 				if !s.silent {
 					if s.writeAll {
 						fmt.Printf("%d %o %o\n", i, b1, b2)
@@ -100,6 +102,9 @@ func cmp(s settings) error {
 
 	}
 
+	if differ {
+		os.Exit(1)
+	}
 	return nil
 }
 
-- 
2.43.0


From ce3d8d86991ae0350f3b778a1ba424d37c5a2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 09/41] fix: cmp -s prints nothing at the end of the shorter
 file

---
 cmd/cmp/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 01d1b69..7c8ed1a 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -87,14 +87,18 @@ func cmp(s settings) error {
 		}
 		if err1 != nil {
 			if err1 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
 		if err2 != nil {
 			if err2 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
-- 
2.43.0


From ce2a8ddbd5dd03192d42d923dbf615ed21e7ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 10/41] fix: diff compares lines of any length and keeps
 carriage returns

---
 cmd/diff/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..126ce99 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -3,8 +3,10 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/fwip/posix-utils/pkg/diff"
 )
@@ -86,12 +88,20 @@ func readLines(fn string) ([]string, error) {
 		return nil, err
 	}
 	defer f.Close()
-	scanner := bufio.NewScanner(f)
+	reader := bufio.NewReader(f)
 	lines := make([]string, 0)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	for {
+		line, err := reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return nil, err
+		}
+		if line != "" {
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
 	}
-	return lines, scanner.Err()
 }
 
 func main() {
-- 
2.43.0


From 2b43914e3c5d16308ca450d6664e95ac8edfe74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:38 +0000
Subject: [PATCH 11/41] fix: diff's exit status tells whether the files differ
 or cannot be read

---
 cmd/diff/main.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 126ce99..7f7fbac 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -107,13 +107,24 @@ func readLines(fn string) ([]string, error) {
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
-		fmt.Fprintf(os.Stdout, "Oh heck an error: %s\n", err)
-		os.Exit(1)
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	if script := diff.Format(changes); script != "" {
+		fmt.Println(script)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From e35495e86456728d82da9e86b533d2743b4de37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:38 +0000
Subject: [PATCH 12/41] fix: head reads standard input without arguments and
 rejects -n without a number

---
 cmd/head/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..300c3e4 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -20,6 +20,7 @@ func parseSettings(args []string) (settings, error) {
 	}
 
 	if len(args) == 0 {
+		s.filenames = []string{"-"}
 		return s, nil
 		//return settings{}, fmt.Errorf("No arguments")
 	}
@@ -27,6 +28,9 @@ func parseSettings(args []string) (settings, error) {
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
+			if i == len(args) {
+				return s, fmt.Errorf("-n needs a number")
+			}
 			n, err := strconv.Atoi(args[i])
 			if err != nil {
 				return s, err
-- 
2.43.0


From 09029f7882a8772efdb0f11cf43813a6722b3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:38 +0000
Subject: [PATCH 13/41] fix: head copies lines of any length byte for byte and
 reads no further than it prints

---
 cmd/head/main.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 300c3e4..07e7ba8 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -68,14 +68,16 @@ func process(s settings) {
 			}
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
-		}
-		if scan.Err() != nil {
-			panic(scan.Err())
+		reader := bufio.NewReader(f)
+		for j := 0; j < s.numLines; j++ {
+			line, err := reader.ReadString('\n')
+			fmt.Print(line)
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				panic(err)
+			}
 		}
 	}
 
-- 
2.43.0


From feaf60c9b323c0ecafc4da7873dce7647fd80aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:50 +0000
Subject: [PATCH 14/41] fix: kill sends the requested signal to every process
 it is given

---
 cmd/kill/main.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..f4ea48e 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -29,7 +30,7 @@ func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -39,22 +40,26 @@ func main() {
 			listSignals = true
 		case "-s":
 			i++
+			if i == len(os.Args) {
+				errorMsg("-s needs a signal name\n")
+			}
 			signalName := strings.ToUpper(os.Args[i])
 			signal, ok = signalMap[signalName]
 			if !ok {
 				errorMsg("%s is not a valid signal name - check kill -l for help\n", a)
 			}
 		default:
-			if a[0] == '-' {
+			if strings.HasPrefix(a, "-") {
 				signal, err = strconv.Atoi(a[1:])
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
-				if err != nil {
+				pid, err := strconv.Atoi(a)
+				if err != nil || pid <= 0 {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
@@ -62,16 +67,20 @@ func main() {
 	if listSignals {
 
 	}
-	fmt.Println("sending", signal, "to", pid)
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	if len(pids) == 0 {
+		errorMsg("expected a PID\n")
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	status := 0
+	for _, pid := range pids {
+		fmt.Println("sending", signal, "to", pid)
+		process, err := os.FindProcess(pid)
+		if err == nil {
+			err = process.Signal(syscall.Signal(signal))
+		}
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "couldn't send signal %d to %d, %s\n", signal, pid, err)
+			status = 1
+		}
 	}
-
-	fmt.Println("vim-go")
+	os.Exit(status)
 }
-- 
2.43.0


From 3c7f82436b887a84cfe0e4683398466ed4a5162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:50 +0000
Subject: [PATCH 15/41] fix: tsort keeps the known successors of a word that is
 mentioned alone

---
 pkg/tsort/tsort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..fe11884 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,9 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From 09ae46cab5a99d8cfb02e03b2b419efc224ab1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:20 +0000
Subject: [PATCH 16/41] fix: kill refuses signal numbers outside 0 to 64

---
 cmd/kill/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index f4ea48e..e152be9 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -51,7 +51,7 @@ func main() {
 		default:
 			if strings.HasPrefix(a, "-") {
 				signal, err = strconv.Atoi(a[1:])
-				if err != nil {
+				if err != nil || signal < 0 || signal > 64 {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-- 
2.43.0


From 90b821d259fa126dab9aeb5476b912398d14b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:02 +0000
Subject: [PATCH 17/41] fix: tsort accepts words of any length

---
 cmd/tsort/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index a131ccb..17a1f43 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/fwip/posix-utils/pkg/tsort"
@@ -18,6 +19,7 @@ func run(input io.Reader, output io.Writer) {
 	var sorter tsort.Sorter
 	scanner := bufio.NewScanner(input)
 	scanner.Split(bufio.ScanWords)
+	scanner.Buffer(nil, math.MaxInt32)
 
 	for scanner.Scan() {
 		w1 := scanner.Text()
-- 
2.43.0


From f23c30dca8a626b6f5a3ffe2153b099758ec2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:42 +0000
Subject: [PATCH 18/41] fix: ed prints nothing but its responses on standard
 output

---
 pkg/ed/ed.go     | 6 +++---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..ac1ef20 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,7 +52,7 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
+	debug("f is", ed.filename, "tmp is", tmpName)
 
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
@@ -239,13 +239,13 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
+		debug("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..4dadc68 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
 
 textTerm <- '\n.'
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..c244f0f 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = buffer[begin:end]
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -2305,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
-- 
2.43.0


From d6197022ca1ff922e23aef00953b2900fab38b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:42 +0000
Subject: [PATCH 19/41] fix: ed's parser takes multi-byte file names and search
 texts whole

---
 pkg/ed/ed.peg    | 16 ++++++++--------
 pkg/ed/ed.peg.go | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 4dadc68..b2f5458 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,13 +58,13 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.'
 
@@ -81,14 +81,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -120,7 +120,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index c244f0f..f3480c9 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -465,7 +465,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -473,7 +473,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -499,7 +499,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -2250,7 +2250,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2267,7 +2267,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2277,7 +2277,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2296,7 +2296,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2304,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
+		/* 48 Action8 <- <{p.curCmd.text = text}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2360,7 +2360,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2381,7 +2381,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2472,7 +2472,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From f9f125a027422417a5eb26ce8a88fdb20e8585eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:00 +0000
Subject: [PATCH 20/41] fix: ed counts lines by newlines and handles an
 unterminated last line

---
 pkg/ed/ed.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ac1ef20..1ccd667 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -120,7 +120,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if s != "" && s[len(s)-1] != '\n' {
 		s += "\n"
 	}
 	return s
@@ -128,6 +128,10 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	if s := ed.pt.String(); at > 0 && s[at-1] != '\n' {
+		// The last line has no newline yet
+		text = "\n" + text
+	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
 
@@ -146,10 +150,7 @@ func (ed *Itor) getLineAddr(num int) int {
 	length := 0
 	lines := ed.getLines()
 	if num > len(lines) {
-		for _, l := range lines {
-			length += len(l) + 1
-		}
-		return length
+		return len(ed.pt.String())
 	}
 	for i := 0; i < num-1; i++ {
 		length += len(lines[i]) + 1
@@ -159,13 +160,7 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
-	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
+	lines = strings.Split(ed.pt.String(), "\n")
 
 	// If there's an empty line at the end, remove it
 	// This happens when the file ends in a newline character
-- 
2.43.0


From 0fcb212131c4ec2dc4955ec110b1cb389b1b7f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:15 +0000
Subject: [PATCH 21/41] fix: ed takes input text verbatim and answers
 unparsable commands in order

---
 pkg/ed/command.go |  1 +
 pkg/ed/ed.go      | 50 +++++++++++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..c94924d 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -44,4 +44,5 @@ const (
 	ctwrite
 	ctlineNumber
 	ctshell
+	ctinvalid // could not be parsed
 )
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 1ccd667..32a0138 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"os"
 	"regexp"
 	"strconv"
@@ -14,8 +15,10 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+// An address, as the grammar has it
+const addrPattern = `(([0-9]+|[.$]|'[a-z]|/([^/\\]|\\+[^/\\]|\\+/)+/|\?([^?\\]|\\+[^?\\]|\\+\?)+\?)([+-][0-9]*)?)?`
+
+var multlineCmdStart = regexp.MustCompile(`^[ \t]*` + addrPattern + `[ \t]*[,;]?[ \t]*` + addrPattern + `[ \t]*[aic][ \t]*$`)
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
@@ -128,11 +131,14 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	if text == "" {
+		return
+	}
 	if s := ed.pt.String(); at > 0 && s[at-1] != '\n' {
 		// The last line has no newline yet
 		text = "\n" + text
 	}
-	ed.pt.Insert([]byte(text+"\n"), at)
+	ed.pt.Insert([]byte(text), at)
 }
 
 // Delete will delete from the starting line to the end line
@@ -199,6 +205,17 @@ func (ed *Itor) Quit(force bool) error {
 	return nil
 }
 
+// scanLines splits its input at newlines only
+func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	if i := bytes.IndexByte(data, '\n'); i >= 0 {
+		return i + 1, data[:i], nil
+	}
+	if atEOF && len(data) > 0 {
+		return len(data), data, nil
+	}
+	return 0, nil, nil
+}
+
 // ProcessCommands is the main entry point for an interpreter
 // Blocks until all commands have been processed
 func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
@@ -208,30 +225,40 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 	go func() {
 		s := bufio.NewScanner(r)
+		s.Buffer(nil, math.MaxInt32)
+		s.Split(scanLines)
 		for s.Scan() {
 			cmd := s.Text()
 
 			// Handle multi-line commands
-			if multlineCmdStart.Match([]byte(cmd)) {
+			var text []byte
+			multiline := multlineCmdStart.Match([]byte(cmd))
+			if multiline {
 				for s.Scan() {
-					cmd += "\n" + s.Text()
 					if s.Text() == "." {
+						// The parser sees an empty text, so that any line can be part of it
+						cmd += "\n\n."
 						break
 					}
+					text = append(append(text, s.Bytes()...), '\n')
 				}
 			}
 
 			debug("line", cmd)
-			p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
+			parsed := make(chan Command, 3)
+			p := &Parser{Buffer: cmd + "\n", Out: parsed}
 			p.Init()
 			err := p.Parse()
 			if err != nil {
-				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
-				//close(cmds)
+				cmds <- Command{typ: ctinvalid, text: err.Error()}
 				continue
 			}
 			p.Execute()
+			c := <-parsed
+			if multiline {
+				c.text = string(text)
+			}
+			cmds <- c
 		}
 		if s.Err() != nil {
 			debug("Err:", s.Err())
@@ -279,7 +306,7 @@ func (ed *Itor) addrLine(a address) int {
 }
 
 func linesIn(s string) int {
-	n := 1
+	n := 0
 	for _, r := range s {
 		if r == '\n' {
 			n++
@@ -291,6 +318,9 @@ func linesIn(s string) int {
 func (ed *Itor) processCommand(cmd Command) string {
 	var err error
 
+	if cmd.typ == ctinvalid {
+		return "?" + cmd.text
+	}
 	cmd = setDefaultAddresses(cmd)
 	switch cmd.typ {
 	case ctedit:
-- 
2.43.0


From f1cf5ebe0487800a1a20c5207793f65e5e871527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:57 +0000
Subject: [PATCH 22/41] fix: ed evaluates addresses once, with offsets, and
 refuses invalid ones

---
 pkg/ed/command.go |   3 ++
 pkg/ed/ed.go      | 110 ++++++++++++++++++++++++++++++++++------------
 pkg/ed/ed.peg     |   2 +-
 pkg/ed/ed.peg.go  |  18 +++++++-
 4 files changed, 103 insertions(+), 30 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index c94924d..9ee8ee6 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -8,6 +8,9 @@ type Command struct {
 	dest   address
 	text   string
 	params []string
+
+	// the first address becomes the current line for the second one
+	semicolon bool
 }
 
 type cmdType byte
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 32a0138..5c978be 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -20,6 +20,9 @@ const addrPattern = `(([0-9]+|[.$]|'[a-z]|/([^/\\]|\\+[^/\\]|\\+/)+/|\?([^?\\]|\
 
 var multlineCmdStart = regexp.MustCompile(`^[ \t]*` + addrPattern + `[ \t]*[,;]?[ \t]*` + addrPattern + `[ \t]*[aic][ \t]*$`)
 
+// The offset at the end of an address
+var addrOffset = regexp.MustCompile(`[+-][0-9]*$`)
+
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
 }
@@ -176,7 +179,7 @@ func (ed *Itor) getLines() (lines []string) {
 	return lines
 }
 
-func (ed *Itor) regexMatch(re string) (line int, found bool) {
+func (ed *Itor) regexMatch(re string, cur int) (line int, found bool) {
 	lines := ed.getLines()
 	// TODO: Does this regex implemantion conform to spec?
 	regex, err := regexp.CompilePOSIX(re)
@@ -184,15 +187,12 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
+	for i := 0; i < len(lines); i++ {
+		n := (cur+i)%len(lines) + 1
 		debug("n is", n)
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
@@ -277,32 +277,81 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}
 }
 
-func (ed *Itor) addrLine(a address) int {
+// addrLine evaluates an address, cur being the current line
+func (ed *Itor) addrLine(a address, cur int) (int, error) {
 	var line int
+	text := strings.TrimSpace(a.text)
+	offset := a.offset
+	if s := addrOffset.FindString(text); s != "" {
+		text = strings.TrimSuffix(text, s)
+		if len(s) == 1 {
+			s += "1"
+		}
+		n, err := strconv.Atoi(s)
+		if err != nil {
+			return 0, err
+		}
+		offset += n
+	}
 	switch a.typ {
 	case lCurrent:
-		line = ed.currentLine
+		line = cur
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		n, err := strconv.Atoi(text)
+		if err != nil {
+			return 0, err
+		}
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
 	case lRegex:
-		regex := strings.Trim(a.text, "/")
-		n, found := ed.regexMatch(regex)
+		regex := text[1 : len(text)-1]
+		n, found := ed.regexMatch(regex, cur)
 		line = n
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no match for %s", text)
 		}
 	//case lRegexReverse:
 	//n := ed.regexMatchReverse(a.text)
 	//line = n
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("unsupported address %s", text)
 	}
 
-	return line + a.offset
+	return line + offset, nil
+}
+
+// addrRange evaluates the addresses of a command and checks that they are in the buffer
+func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
+	start, err = ed.addrLine(cmd.start, ed.currentLine)
+	if err != nil {
+		return 0, 0, err
+	}
+	min := 1
+	switch cmd.typ {
+	case ctappend, ctinsert, ctlineNumber:
+		min = 0
+	}
+	last := len(ed.getLines())
+	if start < min || start > last {
+		return 0, 0, fmt.Errorf("invalid address")
+	}
+	end = start
+	if cmd.end.typ != lNull {
+		cur := ed.currentLine
+		if cmd.semicolon {
+			cur = start
+		}
+		end, err = ed.addrLine(cmd.end, cur)
+		if err != nil {
+			return 0, 0, err
+		}
+	}
+	if end < start || end > last {
+		return 0, 0, fmt.Errorf("invalid address")
+	}
+	return start, end, nil
 }
 
 func linesIn(s string) int {
@@ -322,6 +371,14 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return "?" + cmd.text
 	}
 	cmd = setDefaultAddresses(cmd)
+	var start, end int
+	switch cmd.typ {
+	case ctprint, ctnumber, ctnull, ctdelete, ctappend, ctinsert, ctchange, ctlineNumber:
+		start, end, err = ed.addrRange(cmd)
+		if err != nil {
+			return "?" + err.Error()
+		}
+	}
 	switch cmd.typ {
 	case ctedit:
 		var filename string
@@ -334,14 +391,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		return ed.number(start, end)
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
-		ed.currentLine = lineNum
-		return ed.Print(lineNum, lineNum)
+		ed.currentLine = start
+		return ed.Print(start, start)
 
 	case ctwrite:
 		err = ed.Write()
@@ -350,30 +406,30 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
+		start++
 		ed.insertBeforeLine(start, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		return strconv.Itoa(start)
 
 	default:
 		return "? (NYI)"
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index b2f5458..e244bb1 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -73,7 +73,7 @@ rangeCmd <- range? sp* rangeC
 range <- startAddr ',' endAddr
        / startAddr ',' sp*     {p.curCmd.end = p.curCmd.start}
        / ',' endAddr sp*       {p.curCmd.start = aFirst}
-       / startAddr ';' endAddr
+       / startAddr ';' endAddr {p.curCmd.semicolon = true}
        / startAddr ';' sp*     {p.curCmd.end = p.curCmd.start}
        / ';' endAddr sp*       {p.curCmd.start = aCur}
        / startAddr sp*         {p.curCmd.end = p.curCmd.start}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index f3480c9..11a3b0a 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -104,6 +104,7 @@ const (
 	ruleAction44
 	ruleAction45
 	ruleAction46
+	ruleAction47
 )
 
 var rul3s = [...]string{
@@ -194,6 +195,7 @@ var rul3s = [...]string{
 	"Action44",
 	"Action45",
 	"Action46",
+	"Action47",
 }
 
 type token32 struct {
@@ -316,7 +318,7 @@ type Parser struct {
 
 	Buffer string
 	buffer []rune
-	rules  [87]func() bool
+	rules  [88]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -528,6 +530,8 @@ func (p *Parser) Execute() {
 			p.curCmd.typ = ctmove
 		case ruleAction46:
 			p.curCmd.typ = ctcopy
+		case ruleAction47:
+			p.curCmd.semicolon = true
 
 		}
 	}
@@ -1138,7 +1142,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position72, tokenIndex72
 			return false
 		},
-		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
+		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr Action47) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
 		func() bool {
 			position78, tokenIndex78 := position, tokenIndex
 			{
@@ -1194,6 +1198,9 @@ func (p *Parser) Init() {
 					if !_rules[ruleendAddr]() {
 						goto l84
 					}
+					if !_rules[ruleAction47]() {
+						goto l84
+					}
 					goto l80
 				l84:
 					position, tokenIndex = position80, tokenIndex80
@@ -2577,6 +2584,13 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
+		/* 87 Action47 <- <{p.curCmd.semicolon = true}> */
+		func() bool {
+			{
+				add(ruleAction47, position)
+			}
+			return true
+		},
 	}
 	p.rules = _rules
 }
-- 
2.43.0


From 9fda14e93822dd028721ded8a5f3926da8bd77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:58 +0000
Subject: [PATCH 23/41] fix: ed sets the current line as POSIX prescribes after
 a, i, c, d, p and n

---
 pkg/ed/ed.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 5c978be..f1f7e2f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -391,9 +391,11 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
+		ed.currentLine = end
 		return ed.Print(start, end)
 
 	case ctnumber:
+		ed.currentLine = end
 		return ed.number(start, end)
 	case ctnull:
 		ed.currentLine = start
@@ -411,14 +413,23 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.currentLine = start
+		if n := len(ed.getLines()); start > n {
+			ed.currentLine = n
+		}
 
 	case ctappend:
-		start++
-		ed.insertBeforeLine(start, cmd.text)
+		ed.insertBeforeLine(start+1, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
 		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start
+		if n := linesIn(cmd.text); n > 0 {
+			if start == 0 {
+				start = 1
+			}
+			ed.currentLine = start + n - 1
+		}
 
 	case ctchange:
 		err := ed.Delete(start, end)
@@ -426,7 +437,12 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.currentLine = start
+		if n := linesIn(cmd.text); n > 0 {
+			ed.currentLine = start + n - 1
+		} else if n := len(ed.getLines()); start > n {
+			ed.currentLine = n
+		}
 
 	case ctlineNumber:
 		return strconv.Itoa(start)
-- 
2.43.0


From ec6e0368db89c7f743c84b32e8f10111e27b4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 24/41] fix: ed reads the file when it is opened and answers a
 failing e with ?

---
 pkg/ed/ed.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index f1f7e2f..c69bc24 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -88,20 +88,16 @@ func (ed *Itor) Edit(filename string, force bool) error {
 	if !force && ed.unsaved() {
 		panic("oh no you haven't saved")
 	}
-	f, err := os.Open(filename)
+	// The whole file is read now, since others may change it later
+	data, err := ioutil.ReadFile(filename)
 	if err != nil {
-		debug("cannae open", err)
-		return err
-	}
-	stat, err := f.Stat()
-	if err != nil {
-		debug("cannae stat", err)
+		debug("cannae read", err)
 		return err
 	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(data), len(data))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
@@ -387,7 +383,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From 9c9f06bb910c048349efd6b7e49578a03dbf8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:44 +0000
Subject: [PATCH 25/41] fix: ed's w writes the addressed lines to the named
 file, keeps its mode, and loses nothing on failure

---
 pkg/ed/ed.go | 58 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index c69bc24..ac3ad48 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -51,35 +51,44 @@ func (ed *Itor) closeFile() error {
 	return nil
 }
 
-func (ed *Itor) Write() error {
-	data := ed.pt.String()
-	ed.closeFile()
-
-	var err error
-
-	tmpName := ed.filename + ".swp"
-	debug("f is", ed.filename, "tmp is", tmpName)
+// Write makes data the contents of the named file
+func (ed *Itor) Write(filename string, data string) error {
+	stat, err := os.Stat(filename)
+	if err != nil && (!os.IsNotExist(err) || filename == "") {
+		debug("cannae stat", filename)
+		return err
+	}
 
-	stat, err := os.Stat(ed.filename)
+	// A file of its own, so that nothing is lost if something goes wrong
+	tmpName := filename + ".swp"
+	tmp, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+	for i := 1; os.IsExist(err); i++ {
+		tmpName = fmt.Sprintf("%s.swp%d", filename, i)
+		tmp, err = os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+	}
 	if err != nil {
-		debug("cannae stat", ed.filename)
 		return err
 	}
-	mode := stat.Mode()
-	//defer os.Remove(tmp.Name())
+	debug("f is", filename, "tmp is", tmpName)
 
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	_, err = tmp.WriteString(data)
+	if err == nil && stat != nil {
+		err = tmp.Chmod(stat.Mode())
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	err = os.Rename(tmpName, filename)
 	if err != nil {
 		os.Remove(tmpName)
 		return err
 	}
 
-	return ed.Edit(ed.filename, false)
+	return nil
 }
 
 // Edit opens a new file to edit!
@@ -366,9 +375,18 @@ func (ed *Itor) processCommand(cmd Command) string {
 	if cmd.typ == ctinvalid {
 		return "?" + cmd.text
 	}
+	addressed := cmd.start.typ != lNull
 	cmd = setDefaultAddresses(cmd)
 	var start, end int
 	switch cmd.typ {
+	case ctwrite:
+		// Without an address it is the whole buffer, even an empty one
+		if addressed {
+			start, end, err = ed.addrRange(cmd)
+		}
+		if err != nil {
+			return "?" + err.Error()
+		}
 	case ctprint, ctnumber, ctnull, ctdelete, ctappend, ctinsert, ctchange, ctlineNumber:
 		start, end, err = ed.addrRange(cmd)
 		if err != nil {
@@ -398,7 +416,15 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(start, start)
 
 	case ctwrite:
-		err = ed.Write()
+		filename := ed.filename
+		if cmd.text != "" {
+			filename = cmd.text
+		}
+		data := ed.pt.String()
+		if addressed {
+			data = data[ed.getLineAddr(start):ed.getLineAddr(end+1)]
+		}
+		err = ed.Write(filename, data)
 		if err != nil {
 			return "?" + err.Error()
 		}
-- 
2.43.0


From beeb77455b7a378d6b22f5f08d7164dd124b6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:50 +0000
Subject: [PATCH 26/41] fix: cksum, diff, locale and tsort report a failing
 standard output

---
 cmd/cksum/main.go  | 9 ++++++---
 cmd/diff/main.go   | 5 ++++-
 cmd/locale/main.go | 6 +++++-
 cmd/tsort/main.go  | 8 ++++++--
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index 3a83953..ffd7d47 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -28,10 +28,13 @@ func run(filename string) {
 
 	if len(os.Args) == 1 {
 		// Without an operand there is no name to print
-		fmt.Printf("%d %d\n", memcrc(bytes), len(bytes))
-		return
+		_, err = fmt.Printf("%d %d\n", memcrc(bytes), len(bytes))
+	} else {
+		_, err = fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	}
+	if err != nil {
+		die("couldn't write output %s", err)
 	}
-	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
 }
 
 func main() {
diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 7f7fbac..8df16f2 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -124,7 +124,10 @@ func main() {
 	changes := diff.Diff(l1, l2)
 
 	if script := diff.Format(changes); script != "" {
-		fmt.Println(script)
+		if _, err := fmt.Println(script); err != nil {
+			fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+			os.Exit(2)
+		}
 		os.Exit(1)
 	}
 }
diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 95c63dd..2cc6717 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -1,8 +1,12 @@
 package main
 
 import "fmt"
+import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Print(locale.FromEnv().String())
+	if _, err := fmt.Print(locale.FromEnv().String()); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 }
diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index 17a1f43..a9eb7cd 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -43,11 +43,15 @@ func run(input io.Reader, output io.Writer) {
 		die("sort error! %s", err)
 	}
 	for _, item := range out {
-		fmt.Fprintln(output, item)
+		if _, err := fmt.Fprintln(output, item); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 	if closer, ok := output.(io.Closer); ok {
-		closer.Close()
+		if err := closer.Close(); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 }
-- 
2.43.0


From 6d2e10af5621ba18e79e804ec8c6bd985f99676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:51 +0000
Subject: [PATCH 27/41] fix: head reports a failing standard output

---
 cmd/head/main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 07e7ba8..1382f1f 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -48,14 +48,21 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
+// emit prints to standard output
+func emit(s string) {
+	if _, err := fmt.Print(s); err != nil {
+		panic(err)
+	}
+}
+
 func process(s settings) {
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
 			if i > 0 {
-				fmt.Print("\n")
+				emit("\n")
 			}
-			fmt.Printf("==> %s <==\n", filename)
+			emit(fmt.Sprintf("==> %s <==\n", filename))
 		}
 		var f io.ReadCloser
 		var err error
@@ -71,7 +78,7 @@ func process(s settings) {
 		reader := bufio.NewReader(f)
 		for j := 0; j < s.numLines; j++ {
 			line, err := reader.ReadString('\n')
-			fmt.Print(line)
+			emit(line)
 			if err == io.EOF {
 				break
 			}
-- 
2.43.0


From da9b7f8039ca661c0f292e198efcfe1e8902949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:53 +0000
Subject: [PATCH 28/41] fix: cmp reports a failing standard output and a read
 error at the end of the other file

---
 cmd/cmp/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 7c8ed1a..a9cbb70 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -68,9 +68,12 @@ func cmp(s settings) error {
 				differ = true
 				if !s.silent {
 					if s.writeAll {
-						fmt.Printf("%d %o %o\n", i, b1, b2)
+						_, err = fmt.Printf("%d %o %o\n", i, b1, b2)
 					} else {
-						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+						_, err = fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+					}
+					if err != nil {
+						return fmt.Errorf("Error writing output: %s", err)
 					}
 				}
 				if !s.writeAll {
@@ -85,6 +88,10 @@ func cmp(s settings) error {
 		if err1 == io.EOF && err2 == io.EOF {
 			break
 		}
+		if err1 == io.EOF && err2 != nil {
+			// The end of the other file is not known
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
 			if err1 == io.EOF {
 				if !s.silent {
-- 
2.43.0


From 2ba989d8ed8b4ba241f4a8fe5de4be7a194e41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:38 +0000
Subject: [PATCH 29/41] fix: ed takes file names and search texts that are not
 UTF-8 as they are

---
 pkg/ed/ed.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ac3ad48..bbd4b20 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -221,6 +221,24 @@ func scanLines(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	return 0, nil, nil
 }
 
+// The parser works on characters, but file names may hold any bytes: widen makes
+// a character of each byte, and narrow makes the bytes of the characters
+func widen(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		b.WriteRune(rune(s[i]))
+	}
+	return b.String()
+}
+
+func narrow(s string) string {
+	var b strings.Builder
+	for _, r := range s {
+		b.WriteByte(byte(r))
+	}
+	return b.String()
+}
+
 // ProcessCommands is the main entry point for an interpreter
 // Blocks until all commands have been processed
 func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
@@ -251,7 +269,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 			debug("line", cmd)
 			parsed := make(chan Command, 3)
-			p := &Parser{Buffer: cmd + "\n", Out: parsed}
+			p := &Parser{Buffer: widen(cmd) + "\n", Out: parsed}
 			p.Init()
 			err := p.Parse()
 			if err != nil {
@@ -260,6 +278,10 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			}
 			p.Execute()
 			c := <-parsed
+			c.start.text, c.end.text, c.text = narrow(c.start.text), narrow(c.end.text), narrow(c.text)
+			for i := range c.params {
+				c.params[i] = narrow(c.params[i])
+			}
 			if multiline {
 				c.text = string(text)
 			}
-- 
2.43.0


From 6fe7a028e5d7b8f705d9dcb2b84303d910897b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:19 +0000
Subject: [PATCH 30/41] fix: a comment_char line is not part of the locale
 definition

---
 pkg/locale/localelex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 45bedc3..b5761fc 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -512,8 +512,7 @@ func removeComments(input string) string {
 			continue
 		}
 		// Check for escape/comment_char redefinition
-		checkSpecialWord(l, "comment_char", &commentChar)
-		if !checkSpecialWord(l, "escape_char", &escapeChar) {
+		if !checkSpecialWord(l, "comment_char", &commentChar) && !checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
 			for len(l) > 0 {
-- 
2.43.0


From b3392cf35a22d015043e78e75839cef270ff41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:41 +0000
Subject: [PATCH 31/41] fix: strings in locale definitions end on their line
 and use the escape character

---
 pkg/locale/localelex.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index b5761fc..1993e86 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -282,21 +282,28 @@ func grabInt(l *lexer.L) bool {
 	return true
 }
 
+// mustDigit consumes one of the given digits
+func mustDigit(l *lexer.L, digits string) {
+	if r := l.Next(); !strings.ContainsRune(digits, r) {
+		l.Error(fmt.Sprintf("%q is not a digit", r))
+	}
+}
+
 // Handle escaped characters in strings differently
 func grabEscapeInString(l *lexer.L) (ok bool) {
 	r := l.Next()
 	switch r {
-	case ',', ';', '<', '>', escapeChar:
+	case ',', ';', '<', '>', '"', escapeChar:
 		l.Emit(CHAR)
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		// octal - slurp up two more characters
-		l.Next()
-		l.Next()
+		mustDigit(l, digits)
+		mustDigit(l, digits)
 		l.Emit(OCTAL_CHAR)
 	case 'd':
 		// decimal - slurp up 2 or 3 characters
-		l.Next()
-		l.Next()
+		mustDigit(l, digits)
+		mustDigit(l, digits)
 		if !strings.ContainsRune(digits, l.Next()) {
 			l.Rewind()
 		}
@@ -304,8 +311,8 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 
 	case 'x':
 		// hex - slurp up 2 characters
-		l.Next()
-		l.Next()
+		mustDigit(l, digits+"abcdefABCDEF")
+		mustDigit(l, digits+"abcdefABCDEF")
 		l.Emit(HEX_CHAR)
 	default:
 		l.Error(fmt.Sprintf("%q not valid after escape char %q", r, escapeChar))
@@ -315,7 +322,6 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 }
 
 func grabString(l *lexer.L) (ok bool) {
-	escapeChar := '\\' // TODO
 	if l.Peek() != '"' {
 		return false
 	}
@@ -369,7 +375,11 @@ func grabMsg(l *lexer.L) (ok bool) {
 		return false
 	}
 	l.Emit('"')
-	for l.Next() != '"' {
+	for r := l.Next(); r != '"'; r = l.Next() {
+		if r == '\n' || r == lexer.EOFRune {
+			l.Error("Aww jeez. Got the end of the line before an end quote")
+			return false
+		}
 	}
 	l.Rewind()
 	l.Emit(EXTENDED_REG_EXP)
-- 
2.43.0


From ed1e423663ec134621d188f82fa7068d7e9ef17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:42 +0000
Subject: [PATCH 32/41] fix: unknown categories and words in LC_COLLATE are
 errors in locale definitions

---
 pkg/locale/localelex.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 1993e86..b398b18 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -155,10 +155,13 @@ func sCategory(l *lexer.L) lexer.StateFunc {
 		next = getsGenericCategory(header, typ, msgMap)
 	}
 	if next == nil {
+		if header != "" || l.Peek() != lexer.EOFRune {
+			l.Error(fmt.Sprintf("expected a category, got '%s'", header))
+		}
 		return nil
 	}
 	l.Emit(typ)
-	l.Take(whiteSpace)
+	grabWhitespace(l)
 	must(grabNewline, l)
 	return next
 }
@@ -426,6 +429,8 @@ func sCollateCategory(l *lexer.L) lexer.StateFunc {
 		must(grabString, l)
 		grabWhitespace(l)
 		must(grabNewline, l)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", word))
 	}
 
 	return sCollateCategory
@@ -444,6 +449,8 @@ func sCollateOrderStart(l *lexer.L) lexer.StateFunc {
 		l.Emit(BACKWARD_STR)
 	case "position":
 		l.Emit(POSITION_STR)
+	default:
+		l.Error(fmt.Sprintf("unexpected '%s' after order_start", l.Current()))
 	}
 	return sCollateOrderStart
 }
-- 
2.43.0


From 321cbf4aac4a67cf4ef46b8b76a198e9d5c4f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:54 +0000
Subject: [PATCH 33/41] fix: charclass, grouping and order_start take lists in
 locale definitions

---
 pkg/locale/localelex.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index b398b18..e6a69af 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -38,7 +38,7 @@ var ctypeMap = map[string]decode{
 	"print":     {PRINT_STR, grabCharList},
 	"xdigit":    {XDIGIT_STR, grabCharList},
 	"blank":     {BLANK_STR, grabCharList},
-	"charclass": {CHARCLASS_STR, grabStringList},
+	"charclass": {CHARCLASS_STR, grabNameList},
 	"toupper":   {TOUPPER_STR, grabCharPairList},
 	"tolower":   {TOLOWER_STR, grabCharPairList},
 }
@@ -65,7 +65,7 @@ var timeMap = map[string]decode{
 var numericMap = map[string]decode{
 	"decimal_point": {DECIMAL_POINT_STR, grabString},
 	"thousands_sep": {THOUSANDS_SEP_STR, grabString},
-	"grouping":      {GROUPING_STR, grabInt},
+	"grouping":      {GROUPING_STR, grabIntList},
 }
 
 // Monetary mappings
@@ -260,6 +260,23 @@ func grabCharPairList(l *lexer.L) (ok bool) {
 	return ok
 }
 
+func grabNameList(l *lexer.L) (ok bool) {
+	for {
+		l.Take(upperChars + lowerChars + digits)
+		if l.Current() == "" {
+			return ok
+		}
+		l.Emit(CHARCLASS)
+		ok = true
+		if l.Next() == ';' {
+			l.Emit(';')
+		} else {
+			l.Rewind()
+			return true
+		}
+	}
+}
+
 func grabIntList(l *lexer.L) (ok bool) {
 	for grabInt(l) {
 		ok = true
@@ -278,7 +295,7 @@ func grabInt(l *lexer.L) bool {
 	if n == "" {
 		return false
 	}
-	if n == "-" || (len(n) > 2 && strings.ContainsRune(n[1:], '-')) {
+	if n == "-" || (len(n) > 1 && strings.ContainsRune(n[1:], '-')) {
 		l.Error(fmt.Sprintf("expected integer, got %s", n))
 	}
 	l.Emit(NUMBER)
@@ -441,6 +458,11 @@ func sCollateOrderStart(l *lexer.L) lexer.StateFunc {
 	l.Take(lowerChars)
 	switch l.Current() {
 	case "":
+		if r := l.Next(); r == ';' || r == ',' {
+			l.Emit(lexer.TokenType(r))
+			return sCollateOrderStart
+		}
+		l.Rewind()
 		must(grabNewline, l)
 		return sCollateOrder
 	case "forward":
-- 
2.43.0


From 5c43891ec03614ae4ed1a72f94b17f154fc316c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:36 +0000
Subject: [PATCH 34/41] fix: head closes each file before it opens the next

---
 cmd/head/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 1382f1f..ab88660 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -86,6 +86,10 @@ func process(s settings) {
 				panic(err)
 			}
 		}
+
+		if filename != "-" {
+			f.Close()
+		}
 	}
 
 }
-- 
2.43.0


From f023f959a16a58b25501e026421c65e851bf2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:16 +0000
Subject: [PATCH 35/41] fix: the piece table accepts readers that report EOF
 along with the last bytes

---
 pkg/txt/piece_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index a01f561..f771edf 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -62,10 +62,11 @@ func (p piece) Read(bytes []byte) (int, error) {
 	n := 0
 	for n < p.length {
 		i, err := p.reader.ReadAt(bytes[n:p.length], p.offset+int64(n))
-		if err != nil {
+		n += i
+		// A reader may report the end of its data along with the last bytes
+		if err != nil && n < p.length {
 			return 0, err
 		}
-		n += i
 	}
 	if n != p.length {
 		return 0, fmt.Errorf("Meant to read %d bytes, read %d instead", p.length, n)
-- 
2.43.0


From 7dce1b58edafd6985c87fcd557353fdb6e7b1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:17 +0000
Subject: [PATCH 36/41] fix: ed's w writes files with names of up to 255 bytes

---
 pkg/ed/ed.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index bbd4b20..47acaf5 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"math"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"strings"
@@ -60,10 +61,15 @@ func (ed *Itor) Write(filename string, data string) error {
 	}
 
 	// A file of its own, so that nothing is lost if something goes wrong
-	tmpName := filename + ".swp"
+	prefix := filename
+	if base := filepath.Base(filename); len(base) > 240 {
+		// There is no room for a suffix in a name of 255 bytes
+		prefix = filename[:len(filename)-15]
+	}
+	tmpName := prefix + ".swp"
 	tmp, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	for i := 1; os.IsExist(err); i++ {
-		tmpName = fmt.Sprintf("%s.swp%d", filename, i)
+		tmpName = fmt.Sprintf("%s.swp%d", prefix, i)
 		tmp, err = os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
 	}
 	if err != nil {
-- 
2.43.0


From 09ca8bbba6a51b2b13347978bfecb6bd201f9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:40 +0000
Subject: [PATCH 37/41] fix: ed finds search texts that are not UTF-8

---
 pkg/ed/ed.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 47acaf5..2368288 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -12,6 +12,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/fwip/posix-utils/pkg/txt"
 )
@@ -192,6 +193,11 @@ func (ed *Itor) getLines() (lines []string) {
 
 func (ed *Itor) regexMatch(re string, cur int) (line int, found bool) {
 	lines := ed.getLines()
+	// Expressions are made of characters: in those that are not, each byte counts as one
+	bytewise := !utf8.ValidString(re)
+	if bytewise {
+		re = widen(re)
+	}
 	// TODO: Does this regex implemantion conform to spec?
 	regex, err := regexp.CompilePOSIX(re)
 	if err != nil {
@@ -201,7 +207,11 @@ func (ed *Itor) regexMatch(re string, cur int) (line int, found bool) {
 	for i := 0; i < len(lines); i++ {
 		n := (cur+i)%len(lines) + 1
 		debug("n is", n)
-		if regex.Match([]byte(lines[n-1])) {
+		text := lines[n-1]
+		if bytewise {
+			text = widen(text)
+		}
+		if regex.MatchString(text) {
 			return n, true
 		}
 	}
-- 
2.43.0


From cc3e81f9571af610b8334f6737af470ac95425eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:54 +0000
Subject: [PATCH 38/41] fix: kill refuses process numbers that do not fit in 32
 bits

---
 cmd/kill/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index e152be9..9d9db2b 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -55,11 +55,12 @@ func main() {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err := strconv.Atoi(a)
+				// The system would take the low 32 bits of a larger number
+				pid, err := strconv.ParseInt(a, 10, 32)
 				if err != nil || pid <= 0 {
 					errorMsg("expected a PID here..., got %s", a)
 				}
-				pids = append(pids, pid)
+				pids = append(pids, int(pid))
 			}
 		}
 	}
-- 
2.43.0


From 31ee85b06ba0ba92daafd549731c3192b6197f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 39/41] fix: only comment_char and escape_char with one
 character redefine them

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index e6a69af..05cb26d 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -529,7 +529,7 @@ func checkSpecialWord(line, word string, dest *rune) bool {
 	wordLen := len(word)
 	if len(line) >= wordLen && line[:wordLen] == word {
 		words := strings.Fields(line)
-		if len(words) == 2 {
+		if len(words) == 2 && words[0] == word && utf8.RuneCountInString(words[1]) == 1 {
 			*dest, _ = utf8.DecodeRuneInString(words[1])
 			return true
 		}
-- 
2.43.0


From 39b409445dc6a282891f46065885b27af1e5ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 40/41] fix: comment_char and escape_char are keywords only
 before the first category

---
 pkg/locale/localelex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 05cb26d..d81db09 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -543,6 +543,7 @@ func removeComments(input string) string {
 	lines := strings.Split(input, "\n")
 	commentChar := '#'
 	escapeChar = '\\' // FIXME: Uses global escapeChar
+	started := false  // redefinitions come before the first category
 	// TODO: Resolve comment / escape-joined lines interaction
 	for i := 0; i < len(lines); i++ {
 		l := lines[i]
@@ -551,7 +552,7 @@ func removeComments(input string) string {
 			continue
 		}
 		// Check for escape/comment_char redefinition
-		if !checkSpecialWord(l, "comment_char", &commentChar) && !checkSpecialWord(l, "escape_char", &escapeChar) {
+		if started || !checkSpecialWord(l, "comment_char", &commentChar) && !checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
 			for len(l) > 0 {
@@ -565,6 +566,7 @@ func removeComments(input string) string {
 				i++
 				l = l[:len(l)-size] + strings.TrimSpace(lines[i])
 			}
+			started = started || strings.TrimSpace(l) != ""
 			_, err := out.WriteString(l)
 			if err != nil {
 				panic(err)
-- 
2.43.0


From 778a3ec2b7d65a83134b2d1ad0182a608d468abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 41/41] fix: ed opens a file operand whatever its name

The operand was turned into a line of command input, so a name with a
newline or leading blanks was not opened, and what followed the newline
was run as commands.
---
 cmd/ed/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/ed/main.go b/cmd/ed/main.go
index 3bbe05c..814628a 100644
--- a/cmd/ed/main.go
+++ b/cmd/ed/main.go
@@ -3,7 +3,6 @@ package main
 import (
 	"io"
 	"os"
-	"strings"
 
 	"github.com/fwip/posix-utils/pkg/ed"
 )
@@ -12,8 +11,11 @@ func process(in io.Reader, out io.Writer, edit *string) {
 	e := &ed.Itor{}
 	if edit != nil {
 		// If an argument is supplid on the command-line, open it in the editor
-		editCmd := strings.NewReader("e " + *edit + "\n")
-		in = io.MultiReader(editCmd, in)
+		reply := "\n"
+		if err := e.Edit(*edit, false); err != nil {
+			reply = "?" + err.Error() + "\n"
+		}
+		io.WriteString(out, reply)
 	}
 	e.ProcessCommands(in, out)
 	if w, ok := out.(io.WriteCloser); ok {
-- 
2.43.0

