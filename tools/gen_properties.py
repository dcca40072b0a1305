import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
ED=["pkg/ed/ed.go","cmd/ed/main.go"]
p("C01","ed: a save is atomic at every crash point",
 "While ed carries out a `w` command, at every instant the file being saved holds either its complete previous contents or the complete new contents: neither a process that opens it meanwhile, nor killing ed at any point, nor a power loss at any point ever finds it missing, empty, truncated or mixed. Once ed has answered a `w` without a `?`, the named file holds exactly the addressed lines of the buffer, and killing ed afterwards does not change that.",
 ["crash_points","schedules","inputs"],"every buffer, every crash point between and inside the system calls of a save, and every order in which unsynced data reaches the disk",
 "The tests save one three-line file once, on a working disk, and look at it after ed has finished; no test stops ed half way or looks at the file during the save.",
 ED,[("write to a sibling file, sync, then rename over the target","pkg/ed/ed.go Write")],["contents of the target path after every kernel event","disk image after a simulated power loss"])
p("C02","ed: a failed save loses nothing",
 "If any step of a `w` command fails (full disk, I/O error, permission, failed create, sync, close or rename), ed answers it with a line starting with `?`, the target file keeps its previous contents and permissions, and no temporary file stays behind. The editing buffer and the current line are untouched: later commands see the same text, and a later `w`, once the fault is gone, saves all of it.",
 ["fault_sequences","histories"],"every system call of a save failing with every errno it can return, including short writes, at every position of an editing session",
 "No test makes a system call fail.",
 ED,[("error returns of the save path; removal of the temporary file; buffer kept in memory","pkg/ed/ed.go Write")],["ed's answers","file system contents and modes"])
p("C03","ed: a save touches only its target and keeps its permissions",
 "A successful `w` to an existing file leaves that file with the permission bits it had, whatever the umask, and a `w` to a new name creates just that file. No other file or directory entry is created, changed or removed by a save, whatever names already exist next to the target, including names that look like editor temporaries.",
 ["inputs","configurations","histories"],"every set of neighbouring files, file mode, umask and sequence of saves",
 "The one save in the tests happens in /tmp with mode 0644 and never looks at neighbouring files or modes.",
 ED,[("exclusive creation of the temporary file, chmod before rename","pkg/ed/ed.go Write")],["the whole simulated directory tree before and after"])
p("C04","ed: concurrent sessions saving one file never mix",
 "When several ed processes save to the same file at the same time, then under every interleaving of their system calls, and with any of them killed at any point, the file always holds the complete original contents or the complete contents of one of the saves. The file a session saved is never left with part of another session's text, and each session's answers are the same as if it ran alone.",
 ["schedules","crash_points"],"every interleaving of the system calls of two or three ed processes, each of which may be killed",
 "The tests never run two editors.",
 ED,[("temporary file names that no other session uses","pkg/ed/ed.go Write")],["contents of the shared target after every kernel event"])
p("C05","ed: answers come one per command, in command order, and stop at q",
 "What ed writes to standard output is the concatenation of one answer per command, in the order the commands were given, a malformed command being answered by a `?` in its place and a command that prints nothing by an empty line; this does not depend on how the input arrives or on how ed's internal activities are scheduled. When ed waits for input it has already written the complete answers to all complete commands it was given. After `q` or the end of the input nothing more is executed or printed and the process ends.",
 ["schedules","inputs"],"every interleaving of command reading and command execution, every fragmentation and delay of the input",
 "The tests feed one or two commands from memory and let the Go scheduler pick one interleaving; none mixes malformed and valid commands or watches the output before the input ends.",
 ["pkg/ed/ed.go","pkg/ed/ed.peg.go","cmd/ed/main.go"],[("reader goroutine hands commands over an unbuffered channel to the executing goroutine","pkg/ed/ed.go ProcessCommands")],["standard output at every quiescent point and at exit"])
p("C06","ed: editing follows the line-buffer model",
 "For every session of `e`, `a`, `i`, `c`, `d`, `p`, `n`, `=`, `w`, `q` and bare-address commands, with addresses made of numbers, `.`, `$`, `/word/` searches, `+`/`-` offsets and ranges of two addresses separated by a comma, the lines ed prints, the line numbers it reports and the bytes it saves are those of a plain list of lines with a current line as POSIX defines them. This holds for arbitrary line contents (empty, very long, with carriage returns, non-ASCII UTF-8, starting with a dot) and however the input is chopped up or interrupted.",
 ["histories","inputs","schedules"],"every session history over the implemented commands, every buffer and text, under every chunking of the input",
 "Fourteen single-command sessions over the buffer a,b,c; no sequence of edits, no long or unusual lines.",
 ["pkg/ed/ed.go","pkg/ed/address.go","pkg/ed/ed.peg","pkg/ed/ed.peg.go","pkg/txt/piece_table.go"],[("address resolution, line addressing and piece-table edits","pkg/ed/ed.go processCommand"),("text insertion and deletion","pkg/txt/piece_table.go Insert, Delete")],["standard output","saved files"])
p("C07","ed: the buffer is a private copy of the file",
 "Once ed has loaded a file, nothing that happens to that file afterwards (other processes truncating, overwriting, appending to, removing or replacing it, or its disk failing reads) changes what ed prints or saves. An `e` command that fails at any step is answered by a line starting with `?` and leaves the previous buffer and the remembered file name in place.",
 ["schedules","fault_sequences","histories"],"every interleaving of foreign file operations and read faults with an editing session",
 "No test changes a file while ed has it open or makes a read fail.",
 ["pkg/ed/ed.go","pkg/txt/piece_table.go"],[("the whole file is read before the buffer is replaced","pkg/ed/ed.go Edit")],["standard output","saved files"])
p("C08","ed: no input crashes or hangs the editor",
 "For every byte sequence given as commands, and with any faults on the files it names, ed neither panics, deadlocks nor runs on without bound: it ends by itself with exit status 0 when it meets `q` or the end of its input. A command it cannot carry out (bad syntax, address out of range, pattern not found, unsupported command) is answered by a `?` and leaves the buffer and its files unchanged.",
 ["inputs","fault_sequences","schedules"],"every byte sequence on standard input with every chunking and every fault on the named files",
 "Only well-formed commands with valid addresses are tested.",
 ["pkg/ed/ed.go","pkg/ed/ed.peg.go","pkg/txt/piece_table.go"],[("parse errors and address errors are answered instead of raised","pkg/ed/ed.go ProcessCommands, processCommand")],["exit status","runtime diagnostics","number of kernel events"])
p("C09","piece table: equals a byte string under any edit history and reader",
 "For every sequence of in-range inserts and deletes, a piece table's contents equal those of a plain byte string edited the same way, whatever legal behaviour the underlying reader shows (short, interrupted or end-of-file-carrying reads) and even if the caller reuses its slices. If the underlying reader fails, the failure is loud: wrong contents are never returned.",
 ["histories","fault_sequences"],"every edit history and every legal or failing behaviour of the underlying reader",
 "Two inserts and three deletes over an in-memory reader that never fails; the fuzz entry point uses the same reader.",
 ["pkg/txt/piece_table.go"],[("splitting and trimming of pieces","pkg/txt/piece_table.go Insert, Delete"),("read loop","pkg/txt/piece_table.go piece.Read")],["String() after every edit"])
p("C10","cat: output is exactly the concatenation of its inputs",
 "cat writes exactly the bytes of its operands in order (`-` or no operand meaning standard input), however reads and writes are split, shortened or interrupted, and with -u passes on all input it has been given before it waits for more. If an operand cannot be opened or read or the output cannot be written, what was written is a prefix of that concatenation, a diagnostic appears on standard error and the exit status is not zero; otherwise it is zero.",
 ["inputs","fault_sequences","schedules"],"every set of operands, every chunking, interruption and error position of reads and writes",
 "cat has no tests.",["cmd/cat/main.go"],[("io.Copy from each operand to standard output","cmd/cat/main.go write")],["standard output","exit status","order of reads and writes"])
p("C11","cksum: right checksum and size for every input, or no line at all",
 "For each operand in order (standard input when there is none) cksum prints one line starting with the POSIX CRC and the byte count of exactly the bytes of that input, however reads are split or interrupted. If an input cannot be opened or read completely, no line is printed for it, a diagnostic appears and the exit status is not zero.",
 ["inputs","fault_sequences"],"every contents and length, every chunking and error position",
 "cksum has no tests.",["cmd/cksum/main.go","cmd/cksum/cksum.go"],[("table-driven CRC followed by the length octets","cmd/cksum/cksum.go memcrc")],["standard output","exit status"])
p("C12","cmp: verdict, position and exit status match the compared bytes",
 "cmp exits 0 exactly when both inputs are identical and 1 when they differ or one is a proper prefix of the other; it reports the byte number and line number of the first difference, with -l every differing byte in order with both values in octal, and with -s nothing; when one input is a proper prefix of the other an end-of-file message naming the shorter one appears on standard error, except with -s. If an input cannot be opened or read at a position the verdict depends on, cmp exits with a status greater than 1 and gives no verdict.",
 ["inputs","fault_sequences"],"every pair of inputs and options, every chunking and error position on either input",
 "cmp has no tests.",["cmd/cmp/main.go"],[("byte-wise comparison of two buffered readers","cmd/cmp/main.go cmp")],["standard output","standard error","exit status"])
p("C13","head: exactly the first n lines, and no waiting for more",
 "For each operand head writes exactly the bytes of the first n lines (ten by default, fewer if the input is shorter), with a header per file when several are named, whatever the line lengths and contents and however reads are split or interrupted. Once n lines have been written for the last operand head ends without waiting for further input.",
 ["inputs","schedules","fault_sequences"],"every operand list, n and contents, every chunking and stall of the input",
 "head has no tests.",["cmd/head/main.go"],[("line loop over a buffered reader","cmd/head/main.go process")],["standard output","exit status","blocking reads"])
p("C14","diff: the script turns the first file into the second",
 "diff prints a normal-format script whose hunks quote the lines they remove and, applied to the lines of the first file, produce the lines of the second; it prints nothing and exits 0 exactly when both files have the same lines, and exits 1 when they differ. This holds for any line lengths and contents and any splitting or interruption of reads; if a file cannot be opened or read, diff prints no script, gives a diagnostic and exits with a status greater than 1.",
 ["inputs","fault_sequences"],"every pair of line sequences, every chunking and error position",
 "pkg/diff has no tests; the fuzz entry point checks reassembly in memory only, not the printed script, the reading of files or the exit status.",
 ["cmd/diff/main.go","pkg/diff/diff.go","pkg/diff/output.go"],[("longest-common-block recursion","pkg/diff/diff.go Diff"),("hunk formatting","pkg/diff/output.go basicOutput")],["standard output","exit status"])
p("C15","tsort: output is a linear extension of the input pairs",
 "For every acyclic set of pairs tsort prints every word of the input exactly once, one per line, in an order that respects every pair, and exits 0; the order of equal candidates may depend on the runtime, the validity may not. If the pairs contain a cycle, a word is left over, or the input cannot be read completely, it prints no order, gives a diagnostic and exits with a non-zero status.",
 ["inputs","schedules","fault_sequences"],"every graph, every map iteration order, every chunking and error position of the input",
 "The tests sort a handful of small graphs once each, under whatever map order the runtime happened to pick, through the package and not the program.",
 ["cmd/tsort/main.go","pkg/tsort/tsort.go"],[("repeated removal of unblocked heads from a map of successors","pkg/tsort/tsort.go Order")],["standard output","exit status"])
p("C16","test: file primaries tell the state of the file at one instant",
 "`test` with a file primary (-c -d -e -f -g -h -L -p -S -s -u), possibly negated with `!`, exits 0 or 1 according to the state the named file has at one instant during the run, following symbolic links for all primaries but -h and -L; a path that cannot be examined (missing, dangling, looping, not permitted, I/O error) counts as false. This holds while other processes change the file.",
 ["configurations","schedules","fault_sequences"],"every file-system state, every concurrent change, every failure of the status calls",
 "cmd/test has no tests.",["cmd/test/tests.go","cmd/test/main.go"],[("one stat or lstat call per primary","cmd/test/tests.go")],["exit status"])
p("C17","kill: exactly the requested signal to exactly the named processes",
 "kill delivers the requested signal (TERM by default, or given as -number or -s NAME in any letter case) once to each process named, in the order named, and no signal to any other process; signal 0 only checks. It exits 0 exactly when every delivery succeeded, also when a process disappears while kill runs; a malformed command line or one without a process delivers nothing and exits with a non-zero status.",
 ["inputs","schedules","fault_sequences"],"every command line, process table, concurrent process exit, every failure of the delivery call",
 "cmd/kill has no tests, and a test that really sends signals could not be run against arbitrary process tables.",
 ["cmd/kill/main.go"],[("os.FindProcess and Process.Signal","cmd/kill/main.go")],["signals delivered in the simulated process table","exit status"])
p("C18","Filters never report success when their output was not delivered",
 "If any write to standard output fails (full disk, I/O error, closed pipe), at whatever point and after whatever partial progress, then cat, cksum, cmp, diff, head, locale and tsort end with a non-zero exit status or by the broken-pipe signal. What did reach the output is a prefix of the complete output.",
 ["fault_sequences","inputs"],"every write position, errno and short count, for every utility and input",
 "No test has a failing output.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/locale/main.go","cmd/tsort/main.go"],[("checking of write errors","the main functions")],["exit status","delivered bytes"])
p("C19","Filters never report success when their input could not be read",
 "If opening or reading any named input, or reading standard input, fails at a point whose data the utility needs, then cat, cksum, cmp, diff, head and tsort end with a non-zero exit status and a diagnostic on standard error. They print no result that depends on data they could not read.",
 ["fault_sequences","inputs"],"every open and read failing with every errno at every position, for every utility and operand list",
 "No test has a failing input.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go"],[("checking of open and read errors","the main functions")],["exit status","standard output","standard error"])
p("C20","Results do not depend on how I/O is chopped up or interrupted",
 "For every utility and the same arguments, environment, input bytes and files, the bytes written to standard output, the files written and the exit status are the same however reads and writes are shortened, split, delayed or interrupted by signals and however goroutines are scheduled and maps are ordered (for tsort: the same set of lines). In particular no data is lost, repeated or reordered at chunk boundaries.",
 ["schedules","fault_sequences","inputs"],"every fragmentation, interruption and schedule of the same run",
 "The tests read from memory or from small local files, whose reads never come back short or interrupted.",
 ["cmd/cat/main.go","cmd/cksum/main.go","cmd/cmp/main.go","cmd/diff/main.go","cmd/head/main.go","cmd/tsort/main.go","cmd/ed/main.go","cmd/locale/main.go","cmd/test/main.go"],[("retry loops and buffered readers of the Go library and the utilities","all main packages")],["standard output","files","exit status of a plain and a perturbed run"])
p("C21","regexes: matching agrees with the meaning of the expression",
 "A basic regular expression matches a string exactly when the string contains a substring in the language of the expression, with ^ and $ anchoring.",
 ["inputs"],"every expression and string","Some forty fixed pairs.",["pkg/regexes/bre.go","pkg/regexes/bre_evaluate.go"],[("backtracking over repeated elements","pkg/regexes/bre_evaluate.go")],["Matches"])
p("C22","flag: options are recognised as the utility syntax guidelines say",
 "Parsing an argument list sets exactly the declared options it contains, with bundling and attached or separate option-arguments, stops at -- or the first operand, and returns the operands unchanged.",
 ["inputs"],"every option declaration and argument list","About ten fixed argument lists.",["pkg/flag/parse.go"],[("left-to-right scan of the arguments","pkg/flag/parse.go")],["Parse"])
p("C23","locale: LC_ALL overrides, LANG is the default",
 "The locale utility prints for each category the value of LC_ALL if set, else of the category's own variable, else of LANG, in the POSIX format.",
 ["configurations"],"every environment","locale has no tests of the environment rules.",["pkg/locale/locale.go"],[("getVal","pkg/locale/locale.go")],["standard output"])
p("C24","locale: definition files are accepted exactly when grammatical",
 "The locale definition parser accepts exactly the texts of the POSIX locale definition grammar and records the values they assign.",
 ["inputs"],"every definition text","Ten fixed texts.",["pkg/locale/localelex.go","pkg/locale/localedef.y"],[("lexer and yacc grammar","pkg/locale")],["yyParse"])
p("C25","test: string and integer primaries and malformed expressions",
 "The string and integer primaries of `test` exit 0 or 1 according to their operands, and a malformed expression exits with a status greater than 1.",
 ["inputs"],"every argument list","cmd/test has no tests.",["cmd/test/main.go","cmd/test/tests.go"],[("parse","cmd/test/main.go")],["exit status"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(max(len(x['title']) for x in P), [x['id'] for x in P if len(x['title'])>80])
