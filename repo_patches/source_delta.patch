From dbf14c0df3a3ab50134efcfc5527af0d31ad5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 01/33] fix: cat exits with a non-zero status when an operand
 cannot be copied

---
 cmd/cat/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..5f7548f 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -49,7 +49,7 @@ func main() {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			os.Exit(1)
 		}
 	}
 }
-- 
2.43.0


From 1694a0b10a073463866916f8b301075db4fa732a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 02/33] fix: cksum reports a failed write of its result

---
 cmd/cksum/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d0177cb..f6b60a0 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -26,7 +26,9 @@ func run(filename string) {
 		die("couldn't read input %s", err)
 	}
 
-	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	if _, err := fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename); err != nil {
+		die("couldn't write output %s", err)
+	}
 }
 
 func main() {
-- 
2.43.0


From 75d6f125dec47d09bb75669e04d9cc81020ec88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 03/33] fix: cmp -l exits 1 when the files differ

---
 cmd/cmp/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..6fbce96 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -58,6 +58,7 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	differ := false
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
@@ -71,6 +72,7 @@ func cmp(s settings) error {
 						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
 					}
 				}
+				differ = true
 				if !s.writeAll {
 					os.Exit(1)
 				}
@@ -100,6 +102,9 @@ func cmp(s settings) error {
 
 	}
 
+	if differ {
+		os.Exit(1)
+	}
 	return nil
 }
 
-- 
2.43.0


From 3f7cf0d33b24a6a5f59a4eb2aa3e793c3680adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 04/33] fix: cmp -s prints nothing when one file is a prefix of
 the other

---
 cmd/cmp/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 6fbce96..b869df1 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -87,14 +87,18 @@ func cmp(s settings) error {
 		}
 		if err1 != nil {
 			if err1 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
 		if err2 != nil {
 			if err2 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
-- 
2.43.0


From e2bb562a56a2c4cf1fbc08d0148566f6c382992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 05/33] fix: cmp gives no EOF verdict when the other file
 cannot be read

---
 cmd/cmp/main.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index b869df1..2394941 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -85,6 +85,10 @@ func cmp(s settings) error {
 		if err1 == io.EOF && err2 == io.EOF {
 			break
 		}
+		// A read error means there is no verdict, whatever the other file says
+		if err2 != nil && err2 != io.EOF {
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
 			if err1 == io.EOF {
 				if !s.silent {
@@ -94,14 +98,11 @@ func cmp(s settings) error {
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
-		if err2 != nil {
-			if err2 == io.EOF {
-				if !s.silent {
-					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
-				}
-				os.Exit(1)
+		if err2 == io.EOF {
+			if !s.silent {
+				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
 			}
-			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+			os.Exit(1)
 		}
 
 	}
-- 
2.43.0


From b35d1e913ca12c6d645d5cf09ec17689734d23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 06/33] fix: cmp reports a failed write of its output

---
 cmd/cmp/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 2394941..05328fb 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -67,9 +67,12 @@ func cmp(s settings) error {
 			if b1 != b2 {
 				if !s.silent {
 					if s.writeAll {
-						fmt.Printf("%d %o %o\n", i, b1, b2)
+						_, err = fmt.Printf("%d %o %o\n", i, b1, b2)
 					} else {
-						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+						_, err = fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+					}
+					if err != nil {
+						return fmt.Errorf("Error writing output: %s", err)
 					}
 				}
 				differ = true
-- 
2.43.0


From b880e7479ac4e02746cae088d07190f04bdfe3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 07/33] fix: head without arguments reads standard input

---
 cmd/head/main.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..20afd01 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,11 +19,6 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-	if len(args) == 0 {
-		return s, nil
-		//return settings{}, fmt.Errorf("No arguments")
-	}
-
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
-- 
2.43.0


From a66a60b82d35f3192eb1e0c8046420c6ffc6317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 08/33] fix: head copies lines of any length exactly, stops
 after the last one and checks its writes

---
 cmd/head/main.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 20afd01..1174834 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -44,9 +44,13 @@ func process(s settings) {
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
 			if i > 0 {
-				fmt.Print("\n")
+				if _, err := fmt.Print("\n"); err != nil {
+					panic(err)
+				}
+			}
+			if _, err := fmt.Printf("==> %s <==\n", filename); err != nil {
+				panic(err)
 			}
-			fmt.Printf("==> %s <==\n", filename)
 		}
 		var f io.ReadCloser
 		var err error
@@ -59,14 +63,18 @@ func process(s settings) {
 			}
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
-		}
-		if scan.Err() != nil {
-			panic(scan.Err())
+		r := bufio.NewReader(f)
+		for j := 0; j < s.numLines; j++ {
+			line, err := r.ReadBytes('\n')
+			if err != nil && err != io.EOF {
+				panic(err)
+			}
+			if _, werr := os.Stdout.Write(line); werr != nil {
+				panic(werr)
+			}
+			if err == io.EOF {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 410468bd7c8ab428c60c315f065b4a590c3df882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 09/33] fix: diff compares lines of any length and keeps
 carriage returns

---
 cmd/diff/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..2f13fed 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -3,8 +3,10 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/fwip/posix-utils/pkg/diff"
 )
@@ -86,12 +88,20 @@ func readLines(fn string) ([]string, error) {
 		return nil, err
 	}
 	defer f.Close()
-	scanner := bufio.NewScanner(f)
+	reader := bufio.NewReader(f)
 	lines := make([]string, 0)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	for {
+		line, err := reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return lines, err
+		}
+		if line != "" {
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
 	}
-	return lines, scanner.Err()
 }
 
 func main() {
-- 
2.43.0


From 1820d040cf4c11fe6c450537104883d3de53216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 10/33] fix: diff exits 0, 1 or 2 and reports read and write
 errors

---
 cmd/diff/main.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 2f13fed..d5f34ce 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -104,6 +104,11 @@ func readLines(fn string) ([]string, error) {
 	}
 }
 
+func die(format string, args ...interface{}) {
+	fmt.Fprintf(os.Stderr, format, args...)
+	os.Exit(2)
+}
+
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
@@ -111,9 +116,22 @@ func main() {
 		os.Exit(1)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		die("Oh heck couldn't read %s: %s\n", settings.file1, err)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		die("Oh heck couldn't read %s: %s\n", settings.file2, err)
+	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	out := diff.Format(changes)
+	if out == "" {
+		return
+	}
+	if _, err := fmt.Println(out); err != nil {
+		die("Oh heck couldn't write the output: %s\n", err)
+	}
+	os.Exit(1)
 }
-- 
2.43.0


From 09dc3680bba5dd8219046f6e45df815b98143810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 11/33] fix: tsort keeps earlier orderings of an item that is
 added on its own

---
 pkg/tsort/tsort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..fe11884 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,9 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From fed665b882b3b13fd6038f9e10bb379489c15671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 12/33] fix: tsort reports failed writes of its output

---
 cmd/tsort/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index a131ccb..8c2b717 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -41,11 +41,15 @@ func run(input io.Reader, output io.Writer) {
 		die("sort error! %s", err)
 	}
 	for _, item := range out {
-		fmt.Fprintln(output, item)
+		if _, err := fmt.Fprintln(output, item); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 	if closer, ok := output.(io.Closer); ok {
-		closer.Close()
+		if err := closer.Close(); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 }
-- 
2.43.0


From a454d2d401a25ae7280fd5d8344b39dc2dfd2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 13/33] fix: tsort accepts words longer than 64 KiB

---
 cmd/tsort/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index 8c2b717..a9eb7cd 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/fwip/posix-utils/pkg/tsort"
@@ -18,6 +19,7 @@ func run(input io.Reader, output io.Writer) {
 	var sorter tsort.Sorter
 	scanner := bufio.NewScanner(input)
 	scanner.Split(bufio.ScanWords)
+	scanner.Buffer(nil, math.MaxInt32)
 
 	for scanner.Scan() {
 		w1 := scanner.Text()
-- 
2.43.0


From fd91bc6e7c5cefad9a25a71d10910a3470cce4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 14/33] fix: locale prints percent signs literally and reports
 a failed write

---
 cmd/locale/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..3b5b112 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -1,8 +1,12 @@
 package main
 
 import "fmt"
+import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	if _, err := fmt.Print(locale.FromEnv().String()); err != nil {
+		fmt.Fprintf(os.Stderr, "locale: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 44f8ee9476a94dad57931a5810c959a4619dcc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:11 +0000
Subject: [PATCH 15/33] fix: kill sends the requested signal to every process
 named

---
 cmd/kill/main.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..011ae35 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -29,7 +30,7 @@ func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -51,10 +52,11 @@ func main() {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
+				pid, err := strconv.Atoi(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
@@ -62,16 +64,21 @@ func main() {
 	if listSignals {
 
 	}
-	fmt.Println("sending", signal, "to", pid)
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	if len(pids) == 0 {
+		errorMsg("expected a PID\n")
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	failed := false
+	for _, pid := range pids {
+		process, err := os.FindProcess(pid)
+		if err == nil {
+			err = process.Signal(syscall.Signal(signal))
+		}
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "couldn't send signal %d to %d: %s\n", signal, pid, err)
+			failed = true
+		}
+	}
+	if failed {
+		os.Exit(1)
 	}
-
-	fmt.Println("vim-go")
 }
-- 
2.43.0


From 3e2fe7a3f510b32068e7bf9b2567eaab5c4b0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:32 +0000
Subject: [PATCH 16/33] fix: ed writes nothing but answers to standard output

---
 pkg/ed/ed.go     | 6 +++---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 1 -
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..ac1ef20 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,7 +52,7 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
+	debug("f is", ed.filename, "tmp is", tmpName)
 
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
@@ -239,13 +239,13 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
+		debug("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..4dadc68 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
 
 textTerm <- '\n.'
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..71feefe 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = buffer[begin:end]
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
-- 
2.43.0


From 8049091781b5de06bb4e5e5aea9d2a5ba3a91051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:33 +0000
Subject: [PATCH 17/33] fix: ed answers a malformed command in its turn

---
 pkg/ed/address.go | 1 +
 pkg/ed/command.go | 1 +
 pkg/ed/ed.go      | 8 +++++---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/address.go b/pkg/ed/address.go
index cb5d4d8..1fde805 100644
--- a/pkg/ed/address.go
+++ b/pkg/ed/address.go
@@ -95,6 +95,7 @@ var defaultAddresses = [...][2]address{
 	{aCur, aLast},              // ctwrite
 	{aLast, aLast},             // ctlineNumber
 	{aCur, aCur},               // ctshell
+	{aCur, aCur},               // ctinvalid
 }
 
 func setDefaultAddresses(cmd Command) Command {
diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..c3fd4cd 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -44,4 +44,5 @@ const (
 	ctwrite
 	ctlineNumber
 	ctshell
+	ctinvalid // not a command; text says why
 )
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ac1ef20..e7ab2a1 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -231,9 +231,8 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Init()
 			err := p.Parse()
 			if err != nil {
-				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
-				//close(cmds)
+				// Answered in its turn, like any other command
+				cmds <- Command{typ: ctinvalid, text: err.Error()}
 				continue
 			}
 			p.Execute()
@@ -347,6 +346,9 @@ func (ed *Itor) processCommand(cmd Command) string {
 		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
 		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
 
+	case ctinvalid:
+		return "?" + cmd.text
+
 	case ctlineNumber:
 		return strconv.Itoa(ed.addrLine(cmd.start))
 
-- 
2.43.0


From 5f97ca6d6db4a4d798ee1499d7fbe5cda58a08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:33 +0000
Subject: [PATCH 18/33] fix: ed keeps its own copy of the file being edited,
 and its buffer when e fails

---
 pkg/ed/ed.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e7ab2a1..1242eb1 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -82,20 +82,16 @@ func (ed *Itor) Edit(filename string, force bool) error {
 	if !force && ed.unsaved() {
 		panic("oh no you haven't saved")
 	}
-	f, err := os.Open(filename)
+	// The buffer is a private copy of the file
+	data, err := ioutil.ReadFile(filename)
 	if err != nil {
-		debug("cannae open", err)
-		return err
-	}
-	stat, err := f.Stat()
-	if err != nil {
-		debug("cannae stat", err)
+		debug("cannae read", err)
 		return err
 	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(data), len(data))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
@@ -304,7 +300,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From 4be608624a3b0a24eee47ece2e1e821454227352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:34 +0000
Subject: [PATCH 19/33] fix: ed saves atomically, keeps the mode and the
 buffer, and touches no other file

---
 pkg/ed/ed.go | 53 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 1242eb1..992a362 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"strings"
@@ -47,33 +48,57 @@ func (ed *Itor) closeFile() error {
 
 func (ed *Itor) Write() error {
 	data := ed.pt.String()
-	ed.closeFile()
 
-	var err error
-
-	tmpName := ed.filename + ".swp"
-	debug("f is", ed.filename, "tmp is", tmpName)
-
-	stat, err := os.Stat(ed.filename)
+	// Replace the file itself, not a symbolic link to it
+	filename, err := filepath.EvalSymlinks(ed.filename)
 	if err != nil {
-		debug("cannae stat", ed.filename)
+		return err
+	}
+	stat, err := os.Stat(filename)
+	if err != nil {
+		debug("cannae stat", filename)
 		return err
 	}
 	mode := stat.Mode()
-	//defer os.Remove(tmp.Name())
 
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	tmp, err := createTemp(filename, mode)
 	if err != nil {
-		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	tmpName := tmp.Name()
+	debug("f is", filename, "tmp is", tmpName)
+
+	err = tmp.Chmod(mode) // whatever the umask
+	if err == nil {
+		_, err = tmp.Write([]byte(data))
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmpName, filename)
+	}
 	if err != nil {
 		os.Remove(tmpName)
-		return err
 	}
+	return err
+}
 
-	return ed.Edit(ed.filename, false)
+// createTemp creates a new file next to filename, under a name nothing else uses
+func createTemp(filename string, mode os.FileMode) (*os.File, error) {
+	for i := 0; ; i++ {
+		name := filename + ".swp"
+		if i > 0 {
+			name += strconv.Itoa(i)
+		}
+		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode.Perm())
+		if !os.IsExist(err) {
+			return f, err
+		}
+	}
 }
 
 // Edit opens a new file to edit!
-- 
2.43.0


From 51d90c0bd694e3f2930dbc67dff85b407fd87a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 20/33] fix: ed w honours its address range and file name

---
 pkg/ed/address.go |  2 +-
 pkg/ed/ed.go      | 48 +++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/pkg/ed/address.go b/pkg/ed/address.go
index 1fde805..cf2cd45 100644
--- a/pkg/ed/address.go
+++ b/pkg/ed/address.go
@@ -92,7 +92,7 @@ var defaultAddresses = [...][2]address{
 	{aCur, aCur},               // ctundo
 	{aCur, aLast},              // ctglobalInverse
 	{aCur, aLast},              // ctinteractiveInverse
-	{aCur, aLast},              // ctwrite
+	{aFirst, aLast},            // ctwrite
 	{aLast, aLast},             // ctlineNumber
 	{aCur, aCur},               // ctshell
 	{aCur, aCur},               // ctinvalid
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 992a362..23a8b4d 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -46,20 +46,33 @@ func (ed *Itor) closeFile() error {
 	return nil
 }
 
+// Write saves the buffer to its file
 func (ed *Itor) Write() error {
-	data := ed.pt.String()
+	return ed.writeTo(ed.filename, ed.pt.String())
+}
+
+func (ed *Itor) writeTo(filename, data string) error {
+	if filename == "" {
+		return fmt.Errorf("no file name")
+	}
 
 	// Replace the file itself, not a symbolic link to it
-	filename, err := filepath.EvalSymlinks(ed.filename)
-	if err != nil {
-		return err
+	if real, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = real
 	}
+	mode := os.FileMode(0666)
 	stat, err := os.Stat(filename)
-	if err != nil {
+	exists := err == nil
+	if err != nil && !os.IsNotExist(err) {
 		debug("cannae stat", filename)
 		return err
 	}
-	mode := stat.Mode()
+	if exists {
+		if !stat.Mode().IsRegular() {
+			return fmt.Errorf("%s is not a regular file", filename)
+		}
+		mode = stat.Mode()
+	}
 
 	tmp, err := createTemp(filename, mode)
 	if err != nil {
@@ -68,7 +81,9 @@ func (ed *Itor) Write() error {
 	tmpName := tmp.Name()
 	debug("f is", filename, "tmp is", tmpName)
 
-	err = tmp.Chmod(mode) // whatever the umask
+	if exists {
+		err = tmp.Chmod(mode) // whatever the umask
+	}
 	if err == nil {
 		_, err = tmp.Write([]byte(data))
 	}
@@ -87,6 +102,23 @@ func (ed *Itor) Write() error {
 	return err
 }
 
+// writeLines saves the addressed lines to the named file, by default all of them to the current one
+func (ed *Itor) writeLines(cmd Command) error {
+	filename := cmd.text
+	if filename == "" {
+		filename = ed.filename
+	}
+	data := ed.pt.String()
+	if cmd.start != aFirst || cmd.end != aLast {
+		data = data[ed.getLineAddr(ed.addrLine(cmd.start)):ed.getLineAddr(ed.addrLine(cmd.end)+1)]
+	}
+	err := ed.writeTo(filename, data)
+	if err == nil && ed.filename == "" {
+		ed.filename = filename
+	}
+	return err
+}
+
 // createTemp creates a new file next to filename, under a name nothing else uses
 func createTemp(filename string, mode os.FileMode) (*os.File, error) {
 	for i := 0; ; i++ {
@@ -339,7 +371,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(lineNum, lineNum)
 
 	case ctwrite:
-		err = ed.Write()
+		err = ed.writeLines(cmd)
 		if err != nil {
 			return "?" + err.Error()
 		}
-- 
2.43.0


From 1247d6e6d077aeff941d4ba61fe4df27a3e1da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:35 +0000
Subject: [PATCH 21/33] fix: ed handles blank last lines, unterminated last
 lines, long lines and carriage returns

---
 pkg/ed/ed.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 23a8b4d..533b681 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -173,7 +173,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if s != "" && s[len(s)-1] != '\n' {
 		s += "\n"
 	}
 	return s
@@ -181,7 +181,11 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
-	ed.pt.Insert([]byte(text+"\n"), at)
+	text += "\n"
+	if s := ed.pt.String(); at > 0 && s[at-1] != '\n' {
+		text = "\n" + text
+	}
+	ed.pt.Insert([]byte(text), at)
 }
 
 // Delete will delete from the starting line to the end line
@@ -199,10 +203,8 @@ func (ed *Itor) getLineAddr(num int) int {
 	length := 0
 	lines := ed.getLines()
 	if num > len(lines) {
-		for _, l := range lines {
-			length += len(l) + 1
-		}
-		return length
+		// The last line may have no newline
+		return len(ed.pt.String())
 	}
 	for i := 0; i < num-1; i++ {
 		length += len(lines[i]) + 1
@@ -212,17 +214,11 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
-	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
+	lines = strings.Split(ed.pt.String(), "\n")
 
 	// If there's an empty line at the end, remove it
 	// This happens when the file ends in a newline character
-	if len(lines) > 0 && lines[len(lines)-1] == "" {
+	if lines[len(lines)-1] == "" {
 		lines = lines[:len(lines)-1]
 	}
 	return lines
-- 
2.43.0


From 0969d21081f0159f7cbaa3247d3ef6d6627f0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:36 +0000
Subject: [PATCH 22/33] fix: piece table accepts readers that return io.EOF
 with the last bytes

---
 pkg/txt/piece_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..d672256 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -62,10 +62,11 @@ func (p piece) Read(bytes []byte) (int, error) {
 	n := 0
 	for n < p.length {
 		i, err := p.reader.ReadAt(bytes[n:p.length], p.offset+int64(n))
-		if err != nil {
+		n += i
+		// A reader may report the end of the file together with the last bytes
+		if err != nil && n < p.length {
 			return 0, err
 		}
-		n += i
 	}
 	if n != p.length {
 		return 0, fmt.Errorf("Meant to read %d bytes, read %d instead", p.length, n)
-- 
2.43.0


From 35430bd94740a0e4401f8940575e62a64b3f535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:36 +0000
Subject: [PATCH 23/33] fix: an empty piece table copies inserted text and
 accepts further inserts

---
 pkg/txt/piece_table.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index d672256..11646c9 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -114,13 +114,11 @@ func (p *piece) append(pieces ...*piece) {
 func (pt *PieceTable) Insert(text []byte, at int) {
 	idx := 0
 	var prev *piece
+	if pt.append == nil {
+		pt.append = bytes.NewBuffer(nil)
+	}
 	if pt.head == nil {
-		pt.head = &piece{
-			length: len(text),
-			offset: 0,
-			reader: bytes.NewReader(text),
-		}
-		return
+		pt.head = &piece{reader: bytes.NewReader(nil)}
 	}
 	for p := pt.head; p != nil; p = p.next {
 		idx += p.length
-- 
2.43.0


From ee1f4598cf82c8c73751b762d6b434c580f3e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:37 +0000
Subject: [PATCH 24/33] fix: ed resolves addresses once, with their offsets,
 and answers invalid ones with ?

---
 pkg/ed/ed.go | 119 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 96 insertions(+), 23 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 533b681..d440045 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -110,7 +110,11 @@ func (ed *Itor) writeLines(cmd Command) error {
 	}
 	data := ed.pt.String()
 	if cmd.start != aFirst || cmd.end != aLast {
-		data = data[ed.getLineAddr(ed.addrLine(cmd.start)):ed.getLineAddr(ed.addrLine(cmd.end)+1)]
+		start, end, err := ed.addrRange(cmd)
+		if err != nil {
+			return err
+		}
+		data = data[ed.getLineAddr(start):ed.getLineAddr(end+1)]
 	}
 	err := ed.writeTo(filename, data)
 	if err == nil && ed.filename == "" {
@@ -232,15 +236,13 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
+	n := ed.currentLine
+	for range lines {
+		n = (n % len(lines)) + 1
 		debug("n is", n)
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
@@ -303,32 +305,72 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}
 }
 
-func (ed *Itor) addrLine(a address) int {
+// addrOffset is the offset after an address
+var addrOffset = regexp.MustCompile(`[+-][0-9]*$`)
+
+// addrLine resolves an address to a line number between 0 and the last line
+func (ed *Itor) addrLine(a address) (int, error) {
 	var line int
+	text := strings.TrimSpace(a.text)
+	offset := a.offset
+	if s := addrOffset.FindString(text); s != "" {
+		text = strings.TrimSuffix(text, s)
+		if len(s) == 1 {
+			s += "1"
+		}
+		n, err := strconv.Atoi(s)
+		if err != nil {
+			return 0, err
+		}
+		offset += n
+	}
 	switch a.typ {
 	case lCurrent:
 		line = ed.currentLine
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		n, err := strconv.Atoi(text)
+		if err != nil {
+			return 0, err
+		}
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
 	case lRegex:
-		regex := strings.Trim(a.text, "/")
+		regex := strings.Trim(text, "/")
 		n, found := ed.regexMatch(regex)
 		line = n
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no match for %s", text)
 		}
 	//case lRegexReverse:
 	//n := ed.regexMatchReverse(a.text)
 	//line = n
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("unsupported address %s", text)
 	}
 
-	return line + a.offset
+	line += offset
+	if line < 0 || line > len(ed.getLines()) {
+		return 0, fmt.Errorf("address out of range")
+	}
+	return line, nil
+}
+
+// addrRange resolves the addresses of a command that works on existing lines
+func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
+	start, err = ed.addrLine(cmd.start)
+	if err != nil {
+		return 0, 0, err
+	}
+	end, err = ed.addrLine(cmd.end)
+	if err != nil {
+		return 0, 0, err
+	}
+	if start < 1 || end < start {
+		return 0, 0, fmt.Errorf("address out of range")
+	}
+	return start, end, nil
 }
 
 func linesIn(s string) int {
@@ -357,12 +399,25 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return ed.number(start, end)
+
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
+		cmd.end = cmd.start
+		lineNum, _, err := ed.addrRange(cmd)
+		if err != nil {
+			return "?" + err.Error()
+		}
 		ed.currentLine = lineNum
 		return ed.Print(lineNum, lineNum)
 
@@ -373,33 +428,51 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd)
+		if err == nil {
+			err = ed.Delete(start, end)
+		}
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
+		start, err := ed.addrLine(cmd.start)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		start++
 		ed.insertBeforeLine(start, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		start, err := ed.addrLine(cmd.start)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		ed.insertBeforeLine(start, cmd.text)
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd)
+		if err == nil {
+			err = ed.Delete(start, end)
+		}
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinvalid:
 		return "?" + cmd.text
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		line, err := ed.addrLine(cmd.start)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return strconv.Itoa(line)
 
 	default:
 		return "? (NYI)"
-- 
2.43.0


From f32bfc3b8e7714064d2d53d3964e76334b186a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:38 +0000
Subject: [PATCH 25/33] fix: ed accepts text lines that start with a dot, and
 empty text

---
 pkg/ed/ed.go     | 14 ++++++--------
 pkg/ed/ed.peg    |  7 ++++---
 pkg/ed/ed.peg.go | 15 ++++++---------
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index d440045..5978bac 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -184,8 +184,11 @@ func (ed *Itor) String() string {
 }
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
+	if text == "" {
+		return
+	}
 	at := ed.getLineAddr(lineNum)
-	text += "\n"
+	text = text[1:] + "\n"
 	if s := ed.pt.String(); at > 0 && s[at-1] != '\n' {
 		text = "\n" + text
 	}
@@ -373,14 +376,9 @@ func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
 	return start, end, nil
 }
 
+// linesIn counts the lines of a text, each of which follows a newline
 func linesIn(s string) int {
-	n := 1
-	for _, r := range s {
-		if r == '\n' {
-			n++
-		}
-	}
-	return n
+	return strings.Count(s, "\n")
 }
 
 func (ed *Itor) processCommand(cmd Command) string {
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 4dadc68..88a5d5c 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -33,8 +33,8 @@ cmd <- bareCmd
      / nullCmd
 
 
-changeTextCmd <- range? changeTextC newLine text
-addTextCmd <- startAddr? addTextC newLine text
+changeTextCmd <- range? changeTextC text
+addTextCmd <- startAddr? addTextC text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
@@ -64,9 +64,10 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
+# Every line of the text follows a newline; a line with just a dot ends it
 text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
 
-textTerm <- '\n.'
+textTerm <- '\n.' &'\n'
 
 rangeCmd <- range? sp* rangeC
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 71feefe..937a09d 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -762,7 +762,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position11, tokenIndex11
 			return false
 		},
-		/* 3 changeTextCmd <- <(range? changeTextC newLine text)> */
+		/* 3 changeTextCmd <- <(range? changeTextC text)> */
 		func() bool {
 			position25, tokenIndex25 := position, tokenIndex
 			{
@@ -780,9 +780,6 @@ func (p *Parser) Init() {
 				if !_rules[rulechangeTextC]() {
 					goto l25
 				}
-				if !_rules[rulenewLine]() {
-					goto l25
-				}
 				if !_rules[ruletext]() {
 					goto l25
 				}
@@ -793,7 +790,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position25, tokenIndex25
 			return false
 		},
-		/* 4 addTextCmd <- <(startAddr? addTextC newLine text)> */
+		/* 4 addTextCmd <- <(startAddr? addTextC text)> */
 		func() bool {
 			position29, tokenIndex29 := position, tokenIndex
 			{
@@ -811,9 +808,6 @@ func (p *Parser) Init() {
 				if !_rules[ruleaddTextC]() {
 					goto l29
 				}
-				if !_rules[rulenewLine]() {
-					goto l29
-				}
 				if !_rules[ruletext]() {
 					goto l29
 				}
@@ -1083,7 +1077,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position64, tokenIndex64
 			return false
 		},
-		/* 12 textTerm <- <('\n' '.')> */
+		/* 12 textTerm <- <('\n' '.' &'\n')> */
 		func() bool {
 			position70, tokenIndex70 := position, tokenIndex
 			{
@@ -1096,6 +1090,9 @@ func (p *Parser) Init() {
 					goto l70
 				}
 				position++
+				if buffer[position] != rune('\n') {
+					goto l70
+				}
 				add(ruletextTerm, position71)
 			}
 			return true
-- 
2.43.0


From 688c408209ed75b5ca0cac5402a3bcd04674e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:49 +0000
Subject: [PATCH 26/33] fix: ed keeps non-ASCII text and file names whole

---
 pkg/ed/ed.peg    | 16 ++++++++--------
 pkg/ed/ed.peg.go | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 88a5d5c..21d6cad 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,14 +58,14 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
 # Every line of the text follows a newline; a line with just a dot ends it
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.' &'\n'
 
@@ -82,14 +82,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -121,7 +121,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 937a09d..e382b60 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -465,7 +465,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -473,7 +473,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -499,7 +499,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -2247,7 +2247,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2264,7 +2264,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2274,7 +2274,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2293,7 +2293,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2301,7 +2301,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = text; fmt.Println("t", p.curCmd.text)}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2357,7 +2357,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2378,7 +2378,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2469,7 +2469,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From 46e94421b29a31774f85a73c0d35b213a555e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 27/33] fix: ed sets the current line as POSIX says after a, c,
 d, i, n and p

---
 pkg/ed/ed.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 5978bac..51cb1d6 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -376,6 +376,14 @@ func (ed *Itor) addrRange(cmd Command) (start, end int, err error) {
 	return start, end, nil
 }
 
+// lineOrLast is the given line, or the last one if there are fewer
+func (ed *Itor) lineOrLast(line int) int {
+	if n := len(ed.getLines()); line > n {
+		return n
+	}
+	return line
+}
+
 // linesIn counts the lines of a text, each of which follows a newline
 func linesIn(s string) int {
 	return strings.Count(s, "\n")
@@ -401,6 +409,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		ed.currentLine = end
 		return ed.Print(start, end)
 
 	case ctnumber:
@@ -408,6 +417,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		ed.currentLine = end
 		return ed.number(start, end)
 
 	case ctnull:
@@ -433,15 +443,14 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = start
+		ed.currentLine = ed.lineOrLast(start)
 
 	case ctappend:
 		start, err := ed.addrLine(cmd.start)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		start++
-		ed.insertBeforeLine(start, cmd.text)
+		ed.insertBeforeLine(start+1, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
@@ -450,6 +459,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
+		if n := linesIn(cmd.text); n > 0 {
+			if start == 0 {
+				start = 1
+			}
+			start += n - 1
+		}
+		ed.currentLine = start
 
 	case ctchange:
 		start, end, err := ed.addrRange(cmd)
@@ -460,7 +476,10 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		if n := linesIn(cmd.text); n > 0 {
+			start += n - 1
+		}
+		ed.currentLine = ed.lineOrLast(start)
 
 	case ctinvalid:
 		return "?" + cmd.text
-- 
2.43.0


From 6650e0e31c3b82c503b0c7c2b0966b2f510cb472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 28/33] fix: ed reads the text of a, i and c commands with any
 address

---
 pkg/ed/ed.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 51cb1d6..e639a1d 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -15,8 +15,10 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+const addrPattern = `(?:[0-9]+|[.$]|'[a-z]|/(?:\\/|[^/])+/|\?(?:\\\?|[^?])+\?)(?:[+-][0-9]*)?`
+
+// Commands that are followed by lines of text
+var multlineCmdStart = regexp.MustCompile(`^\s*(?:` + addrPattern + `)?\s*[,;]?\s*(?:` + addrPattern + `)?\s*[aic]\s*$`)
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From 4dfdcfca26e6df95c046e38fbbdf65657f2c2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:51 +0000
Subject: [PATCH 29/33] fix: ed accepts input lines of any length and keeps
 carriage returns in text

---
 pkg/ed/ed.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e639a1d..e2f79d1 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -268,15 +268,23 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	cmds := make(chan Command)
 
 	go func() {
-		s := bufio.NewScanner(r)
-		for s.Scan() {
-			cmd := s.Text()
+		in := bufio.NewReader(r)
+		for {
+			cmd, ok := readLine(in)
+			if !ok {
+				break
+			}
+			cmd = strings.TrimSuffix(cmd, "\r")
 
 			// Handle multi-line commands
 			if multlineCmdStart.Match([]byte(cmd)) {
-				for s.Scan() {
-					cmd += "\n" + s.Text()
-					if s.Text() == "." {
+				for {
+					line, ok := readLine(in)
+					if !ok {
+						break
+					}
+					cmd += "\n" + line
+					if line == "." {
 						break
 					}
 				}
@@ -293,9 +301,6 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			}
 			p.Execute()
 		}
-		if s.Err() != nil {
-			debug("Err:", s.Err())
-		}
 		close(cmds)
 	}()
 
@@ -391,6 +396,18 @@ func linesIn(s string) int {
 	return strings.Count(s, "\n")
 }
 
+// readLine reads a line of any length, without its newline. ok is false at the end of the input.
+func readLine(in *bufio.Reader) (line string, ok bool) {
+	line, err := in.ReadString('\n')
+	if err != nil && err != io.EOF {
+		debug("Err:", err)
+	}
+	if err != nil && line == "" {
+		return "", false
+	}
+	return strings.TrimSuffix(line, "\n"), true
+}
+
 func (ed *Itor) processCommand(cmd Command) string {
 	var err error
 
-- 
2.43.0


From cbd54037440ce11892755c2d20127c877f447f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:26 +0000
Subject: [PATCH 30/33] fix: kill rejects process and signal numbers beyond 32
 bits instead of signalling another process

---
 cmd/kill/main.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 011ae35..1fc7c67 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -31,7 +31,6 @@ func main() {
 	listSignals := false
 	signal := 15
 	var pids []int
-	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
@@ -47,16 +46,18 @@ func main() {
 			}
 		default:
 			if a[0] == '-' {
-				signal, err = strconv.Atoi(a[1:])
+				// The kernel takes 32 bits: a bigger number would come out as another one
+				n, err := strconv.ParseInt(a[1:], 10, 32)
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
 				}
+				signal = int(n)
 			} else {
-				pid, err := strconv.Atoi(a)
+				pid, err := strconv.ParseInt(a, 10, 32)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
-				pids = append(pids, pid)
+				pids = append(pids, int(pid))
 			}
 		}
 	}
-- 
2.43.0


From b8a5fcae7228590295a9db0aa4a69a7e935d9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:44 +0000
Subject: [PATCH 31/33] fix: ed saves through a dangling symbolic link and
 replaces no link it cannot resolve

---
 pkg/ed/ed.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e2f79d1..b6a0f80 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -59,8 +59,9 @@ func (ed *Itor) writeTo(filename, data string) error {
 	}
 
 	// Replace the file itself, not a symbolic link to it
-	if real, err := filepath.EvalSymlinks(filename); err == nil {
-		filename = real
+	filename, err := realName(filename)
+	if err != nil {
+		return err
 	}
 	mode := os.FileMode(0666)
 	stat, err := os.Stat(filename)
@@ -125,6 +126,28 @@ func (ed *Itor) writeLines(cmd Command) error {
 	return err
 }
 
+// realName is the name of the file that filename leads to, which need not exist yet
+func realName(filename string) (string, error) {
+	for i := 0; i < 40; i++ {
+		real, err := filepath.EvalSymlinks(filename)
+		if err == nil || !os.IsNotExist(err) {
+			return real, err
+		}
+		target, err := os.Readlink(filename)
+		if err != nil {
+			if stat, serr := os.Lstat(filename); serr == nil && stat.Mode()&os.ModeSymlink != 0 {
+				return "", err
+			}
+			return filename, nil
+		}
+		if !filepath.IsAbs(target) {
+			target = filepath.Dir(filename) + "/" + target
+		}
+		filename = target
+	}
+	return "", fmt.Errorf("too many links")
+}
+
 // createTemp creates a new file next to filename, under a name nothing else uses
 func createTemp(filename string, mode os.FileMode) (*os.File, error) {
 	for i := 0; ; i++ {
-- 
2.43.0


From ff65fdacadf148dbe73548eaa6b2700a3ddd8e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:35 +0000
Subject: [PATCH 32/33] fix: ed took a link it could not examine for a new file
 when saving

---
 pkg/ed/ed.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index b6a0f80..8d2909f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -135,9 +135,13 @@ func realName(filename string) (string, error) {
 		}
 		target, err := os.Readlink(filename)
 		if err != nil {
-			if stat, serr := os.Lstat(filename); serr == nil && stat.Mode()&os.ModeSymlink != 0 {
+			stat, serr := os.Lstat(filename)
+			if serr == nil && stat.Mode()&os.ModeSymlink != 0 {
 				return "", err
 			}
+			if serr != nil && !os.IsNotExist(serr) {
+				return "", serr
+			}
 			return filename, nil
 		}
 		if !filepath.IsAbs(target) {
-- 
2.43.0


From b186b116d40f31e1c139da55a50e4e6b68b13865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:10 +0000
Subject: [PATCH 33/33] fix: head kept every file it had read open

---
 cmd/head/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 1174834..3a0d15c 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -76,6 +76,9 @@ func process(s settings) {
 				break
 			}
 		}
+		if f != os.Stdin {
+			f.Close()
+		}
 	}
 
 }
-- 
2.43.0

