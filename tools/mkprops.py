#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
m = lambda name, where: dict(name=name, where=where)

p("C01", "Piece table content equals the plain string its edits describe",
  "After any sequence of insertions and deletions at in-range positions, starting from any original content or from a zero-value table, the piece table's content is exactly the byte string that the same edits produce on a plain string. Reading the content never changes it. The bytes given to an insertion are captured by that call, so a later change to the caller's slice is not seen.",
  ["histories", "inputs"], "all histories of Insert/Delete at every in-range position and length, over tiny originals and texts, to a stated depth; plus structured long histories around buffer sizes",
  "The tests run two fixed histories of two or three edits; a bug in joining, splitting or skipping pieces needs a particular sequence of positions (a delete that spans or ends on piece borders made by earlier edits).",
  ["pkg/txt/piece_table.go"], [m("splitting one piece in two on insert", "pkg/txt/piece_table.go Insert"), m("trimming/unlinking pieces on delete", "pkg/txt/piece_table.go Delete"), m("append-only add buffer with captured slices", "pkg/txt/piece_table.go Insert")],
  ["PieceTable.String()"], [dict(name="piece list", meaning="ordered spans of the original and of the add buffer", where="pkg/txt/piece_table.go")])

p("C02", "ed changes exactly the addressed lines and tracks the current line",
  "For every buffer and every sequence of a, i, c and d commands, the new buffer is the old one with the input lines added after (a) or before (i) the addressed line, or with the addressed lines replaced (c) or removed (d), and every other line is unchanged and in order. Afterwards the current line is the last line entered (for an empty input, the addressed line for a and i, and for c as for d), the line that followed the deleted ones for d (the new last line if there is none, 0 in an empty buffer), the last line printed for p, n and a bare address, and it is unchanged by = and w. A command without an address works on the current line (a bare newline on the next line).",
  ["histories", "inputs"], "all command histories to a stated depth over small buffers (empty, with and without final newline, blank lines) and all address/text choices of a small alphabet",
  "The end-to-end tests run one command on one three-line buffer; what goes wrong depends on what earlier commands did to the pieces, to the last line and to the current line.",
  ["pkg/ed/ed.go", "pkg/ed/address.go", "pkg/txt/piece_table.go"], [m("line number to byte offset", "pkg/ed/ed.go getLineAddr"), m("command execution and current line", "pkg/ed/ed.go processCommand"), m("default addresses", "pkg/ed/address.go setDefaultAddresses")],
  ["responses of ProcessCommands on its writer", "file written by w"], [dict(name="currentLine", meaning="the editor's '.'", where="pkg/ed/ed.go Itor")])

p("C03", "ed addresses select exactly the lines POSIX prescribes",
  "An address is a line number, . (current), $ (last) or /text/ (the next line containing text, searching forward from the line after the current one and wrapping round to and including it), optionally followed by +n or -n, where a sign without digits counts 1. In two-address forms , stands for 1,$ and ; for .;$, an omitted first address is 1 before a comma and the current line before a semicolon, an omitted second one repeats the first, and a semicolon makes the first address the current line before the second is evaluated. p and n print exactly the selected lines (n with their numbers), = prints the selected line's number ($ by default), and a bare address prints that line.",
  ["inputs", "configurations"], "every address form of a small grammar x every current line x buffers of 0 to 12 lines",
  "The tests parse address forms but only check that one command came out; five forms are evaluated on one buffer, none with an offset, none with a search that wraps.",
  ["pkg/ed/ed.peg", "pkg/ed/ed.peg.go", "pkg/ed/address.go", "pkg/ed/ed.go"], [m("address grammar", "pkg/ed/ed.peg"), m("address evaluation", "pkg/ed/ed.go addrLine"), m("forward search", "pkg/ed/ed.go regexMatch")],
  ["responses of ProcessCommands"])

p("C04", "ed survives every invalid command with its state intact",
  "A command line that cannot be parsed or is not implemented, an address outside the buffer (line 0 is valid only for a, i and =), a range whose second line precedes its first, a search text that matches no line, and an e of a file that cannot be read are each answered with a response beginning with '?'. None of them changes the buffer, the current line or the remembered file name, and the next command is executed normally. No sequence of command lines makes ed crash, hang or stop before q or the end of its input.",
  ["inputs", "histories"], "all command strings to a stated length over ed's significant characters, and all invalid commands in all positions of short histories",
  "The tests feed only valid commands; a crash loses the user's whole buffer and depends on which of many invalid inputs arrives in which state.",
  ["pkg/ed/ed.go", "pkg/ed/ed.peg.go", "pkg/ed/address.go"], [m("parser error path", "pkg/ed/ed.go ProcessCommands"), m("address evaluation", "pkg/ed/ed.go addrLine"), m("not-implemented answer", "pkg/ed/ed.go processCommand")],
  ["responses of ProcessCommands", "buffer and current line probed afterwards"])

p("C05", "ed takes input text verbatim up to a lone period",
  "The lines after an a, i or c command, up to a line that is exactly one period, become buffer lines byte for byte, whatever they contain: text that looks like commands, lines that merely begin with a period, blank lines, blanks at either end, multi-byte characters, bytes that are not valid UTF-8, carriage returns, or lines of any length. This holds for every address form the command can carry. No line of the text is ever executed as a command, and the first line after the period is.",
  ["inputs", "histories"], "all text blocks to a stated number of lines over an alphabet of hostile lines, for every text command and address form",
  "The tests enter plain words after commands with no or numeric addresses; lines such as '.x' or '. ' and search addresses take other paths.",
  ["pkg/ed/ed.go", "pkg/ed/ed.peg", "pkg/ed/ed.peg.go"], [m("multi-line command collection", "pkg/ed/ed.go ProcessCommands"), m("text terminator rule", "pkg/ed/ed.peg textTerm"), m("text extraction", "pkg/ed/ed.peg.go Execute")],
  ["buffer as printed or written afterwards"])

p("C06", "ed answers each command once and in order under any timing",
  "Every command read before q gets exactly one response, ending in a newline, and the responses appear on the output in the order of the commands, whichever goroutine runs first and however long a write takes; the output is never written by two goroutines at once. How the input arrives - in one piece, byte by byte, in any other division, with or without pauses - does not change the output. Each command is answered as soon as its last line has arrived, without waiting for further input, and ed stops at q or at the end of input; standard output carries the responses and nothing else.",
  ["schedules", "inputs"], "all orders in which blocked reads and writes of a session are released (explored with every goroutine otherwise blocked), and all divisions of short scripts into reads",
  "The tests read the whole script at once into an in-memory buffer and run one schedule; the parser goroutine and the executor race for the output only when an erroneous line follows a slow command.",
  ["pkg/ed/ed.go", "cmd/ed/main.go"], [m("unbuffered command channel between reader and executor", "pkg/ed/ed.go ProcessCommands"), m("error replies", "pkg/ed/ed.go ProcessCommands")],
  ["io.Reader and io.Writer given to ProcessCommands", "stdout of cmd/ed"])

p("C07", "ed e and w move file contents byte for byte",
  "e (or a file operand) makes the buffer exactly the file's bytes, and w makes the named file - the remembered one if none is given, created if missing - exactly the bytes of the buffer, or of the addressed lines if it has an address; e then w reproduces any file bit for bit, whatever its bytes, line lengths, size or missing final newline. w leaves the buffer, the current line, the target's permission bits and every other file as they were. Once loaded, the buffer is not affected by what other programs do to the file.",
  ["inputs", "histories"], "all file contents to a stated length over bytes that matter to line handling, files around buffer sizes, and all short histories of e, w, edits and outside changes",
  "One test writes one three-line file; carriage returns, long lines, blank last lines, w with a name, permission bits and outside changes are never tried.",
  ["pkg/ed/ed.go", "pkg/txt/piece_table.go"], [m("loading a file", "pkg/ed/ed.go Edit"), m("writing through a temporary file and rename", "pkg/ed/ed.go Write")],
  ["file system after the session", "responses"])

p("C08", "ed's w is all-or-nothing at every crash point and fault",
  "If ed is killed at any point of a w, the target file holds either its complete old contents or the complete new contents. If any file operation of a w fails, ed answers with '?', the target keeps its old contents, no temporary file is left behind, and the buffer with all its edits stays intact and usable, so that a later w succeeds. A w that is answered without '?' has put the complete new contents in the file.",
  ["crash_points", "fault_sequences"], "a kill before and after every file system call of w, and in the middle of every data write; every single failing call (and pairs in the thorough tier) with each plausible errno, and every short write",
  "No test injects a fault or a crash.",
  ["pkg/ed/ed.go"], [m("temporary file and atomic rename", "pkg/ed/ed.go Write"), m("error paths of w", "pkg/ed/ed.go Write, processCommand")],
  ["file system after the kill or fault", "responses after the fault"])

p("C09", "A diff script turns the first file into the second",
  "For any two sequences of lines, applying the printed normal-format script to the first gives exactly the second, and applying it backwards to the second gives exactly the first. Every hunk header (a, c, d with line numbers of both files) is right and has the < and > lines it announces; hunks are in increasing order and do not overlap. The script is empty exactly when the two sequences are equal.",
  ["inputs"], "all pairs of line sequences to a stated length over two- and three-letter alphabets, plus long structured pairs",
  "pkg/diff has no tests at all.",
  ["pkg/diff/diff.go", "pkg/diff/output.go"], [m("longest common run and recursion", "pkg/diff/diff.go Diff"), m("hunk headers and line counters", "pkg/diff/output.go basicOutput")],
  ["diff.Format(diff.Diff(old, new))", "stdout of cmd/diff"])

p("C10", "diff's exit status and comparison are exact for whole files",
  "For two files made of newline-terminated lines, the diff command exits 0 and prints nothing if they are byte-for-byte equal, and exits 1 and prints the script for exactly their lines if they differ - in a carriage return, a blank, a NUL or any other byte, in lines and files of any length. If an operand is missing, there are too many, or a file cannot be read, it exits with a status above 1 and prints no script.",
  ["inputs", "configurations"], "all pairs of small file contents over bytes that matter to line handling, files around buffer sizes, all operand error combinations",
  "cmd/diff has no tests.",
  ["cmd/diff/main.go", "pkg/diff/output.go"], [m("reading lines", "cmd/diff/main.go readLines"), m("exit status", "cmd/diff/main.go main")],
  ["stdout, stderr and exit status of cmd/diff"])

p("C11", "cmp reports the first difference, all differences, or none, exactly",
  "cmp exits 0 and prints nothing if its two inputs are identical, 1 if they differ, and above 1 if an operand is missing or unreadable. Without options it names the first differing byte and its line (one more than the newlines before it); if one input is a proper prefix of the other it reports end of file on that one on standard error and nothing on standard output. -l prints one line per differing byte (decimal position from 1, then both values in octal), -s prints nothing at all, and - stands for standard input.",
  ["inputs", "configurations"], "all pairs of byte strings to a stated length, differences placed around buffer sizes, all option and operand arrangements",
  "cmd/cmp has no tests.",
  ["cmd/cmp/main.go"], [m("byte loop with position and line counters", "cmd/cmp/main.go cmp"), m("exit statuses", "cmd/cmp/main.go cmp, main")],
  ["stdout, stderr and exit status of cmd/cmp"])

p("C12", "tsort output is a valid total order, or a cycle is reported",
  "For any list of pairs, if the relation they describe has no cycle (a pair of equal words only mentions that word), tsort prints every distinct word exactly once, each first word of a pair before its second, and exits 0. If there is a cycle, or the number of words is odd, it prints a diagnostic, no ordering, and exits non-zero. This holds for every order in which the pairs are given and for every iteration order of the program's hash maps.",
  ["inputs", "schedules"], "all pair sequences to a stated length over three to five words, and all map iteration orders within a deviation bound",
  "The test sorts three fixed acyclic inputs, never mentions a word twice alone, never a cycle, and sees one random map order per run.",
  ["pkg/tsort/tsort.go", "cmd/tsort/main.go"], [m("successor lists per word", "pkg/tsort/tsort.go Add"), m("removal of unblocked heads", "pkg/tsort/tsort.go Order")],
  ["Sorter.Order()", "stdout and exit status of cmd/tsort"], [dict(name="orderings", meaning="successors of each word", where="pkg/tsort/tsort.go")])

p("C13", "Basic regular expressions match exactly the strings they denote",
  "For every pattern built from literal characters, '.' (any character), bracket lists of plain characters, the repetitions *, {m}, {m,} and {m,n} on any of these, a leading ^ and a trailing $, matching succeeds exactly when some substring of the input (starting at its beginning with ^, ending at its end with $) is in the language the pattern denotes. * at the start of a pattern, ^ anywhere but the start and $ anywhere but the end are literal characters. A pattern with an unclosed bracket, or with a repetition that is unclosed or not of one of these forms, is never accepted (a panic counts as a refusal). Matching does not depend on earlier matches, and characters are Unicode code points.",
  ["inputs"], "all patterns to a stated number of elements x all inputs to a stated length over a small alphabet",
  "The tests try a few dozen pattern/input pairs and list almost no non-matches for anchored patterns.",
  ["pkg/regexes/bre.go", "pkg/regexes/bre_evaluate.go"], [m("pattern parser", "pkg/regexes/bre.go ParseBre"), m("backtracking matcher", "pkg/regexes/bre_evaluate.go elementsMatch")],
  ["Bre.Matches"])

p("C14", "Option parsing splits every argument list as POSIX prescribes",
  "Arguments are read left to right: each leading argument that begins with '-' (except '-' itself) is a bundle of option letters; a boolean letter sets its flag, a letter that takes a value uses the rest of the bundle or, if that is empty, the next argument whatever it looks like, and the last occurrence wins. The first argument that is not an option, or the one after '--', starts the operands, which are returned unchanged and complete. An unknown option, a missing value or a value that is no integer where one is needed yields an error, never a crash, and options that were not given keep their values. Parsing leaves the arguments as they were, and repeating it gives the same result.",
  ["inputs", "configurations"], "all argument vectors to a stated length over an alphabet of bundles, values and operands, for several option sets",
  "The tests parse eight fixed argument lists; attached values, missing values, unknown letters and repeated options are not among them.",
  ["pkg/flag/parse.go", "pkg/flag/flag.go"], [m("bundle loop", "pkg/flag/parse.go Parse"), m("value conversion", "pkg/flag/flag.go execute")],
  ["Parser.Parse results and destination variables"])

p("C15", "cksum prints the POSIX checksum and length of every input",
  "For each file operand in order, cksum prints one line with the POSIX CRC of its exact bytes (the ISO 8802-3 polynomial over contents followed by the length octets, complemented), its length in bytes and its name; with no operand it reads standard input and omits the name, and the operand - is standard input. This holds for every content and length. If a file cannot be read it exits non-zero with a diagnostic.",
  ["inputs"], "all one- and two-byte inputs (every CRC table entry and transition from it), all lengths to a bound, lengths around powers of 256, operand lists",
  "cmd/cksum has no tests; one wrong table entry shows only for inputs that reach it.",
  ["cmd/cksum/cksum.go", "cmd/cksum/main.go"], [m("CRC table and length extension", "cmd/cksum/cksum.go memcrc"), m("operand loop", "cmd/cksum/main.go")],
  ["stdout and exit status of cmd/cksum"])

p("C16", "cat copies its inputs to standard output byte for byte",
  "cat's standard output is exactly the concatenation of its inputs in operand order, - standing for standard input and no operand meaning standard input; -u changes nothing. No byte is added, lost or altered whatever the contents, sizes or the way standard input arrives. An operand that cannot be read is reported on standard error, the other operands are still copied, and the exit status is then non-zero; otherwise it is 0.",
  ["inputs", "configurations"], "all operand lists to a stated length over files, -, -u, missing files and directories, contents around buffer sizes, all divisions of a short standard input into writes",
  "cmd/cat has no tests.",
  ["cmd/cat/main.go"], [m("operand loop", "cmd/cat/main.go main"), m("copy loop", "cmd/cat/main.go write")],
  ["stdout, stderr and exit status of cmd/cat"])

p("C17", "head copies exactly the first n lines of each input",
  "For each file operand (- or no operand at all meaning standard input) head prints exactly the first n lines, byte for byte and for lines of any length, or the whole input if it has fewer lines; n is 10 unless -n n is given (a decimal number; the last one counts). With more than one operand each part is preceded by the header line ==> name <== and parts are separated by one empty line. head stops without waiting for input beyond the lines it prints, and exits non-zero if -n has no valid number or a file cannot be read.",
  ["inputs", "configurations"], "all small contents over bytes that matter to line handling x all n, line lengths around buffer sizes, operand lists",
  "cmd/head has no tests.",
  ["cmd/head/main.go"], [m("argument parsing", "cmd/head/main.go parseSettings"), m("line loop", "cmd/head/main.go process")],
  ["stdout and exit status of cmd/head"])

p("C18", "test decides every expression of up to four arguments as POSIX says",
  "With no argument the result is false, with one it is whether the argument is non-empty, with two it is negation (!) or a unary primary, with three it is a binary primary if the second argument is one and otherwise negation of two, with four it is negation of three - whatever strings the operands are, including empty ones and ones that look like operators. =, != compare strings; -eq, -ne, -gt, -ge, -lt, -le compare integers; -n, -z test strings; -b, -c, -d, -e, -f, -g, -h, -L, -p, -S, -s, -u test files (following symbolic links except for -h and -L), false if the file does not exist. The exit status is 0 for true, 1 for false and above 1 with a diagnostic for anything else, such as a non-integer operand or an unknown operator.",
  ["inputs", "configurations"], "all argument vectors of length 0 to 4 over an alphabet of operators, operator look-alikes, strings and numbers; every file primary on every kind of file",
  "cmd/test has no tests; the argument-count rules interact with operands that look like operators.",
  ["cmd/test/main.go", "cmd/test/tests.go"], [m("dispatch on argument count", "cmd/test/main.go parse"), m("primary tables", "cmd/test/tests.go flagMap, infixMap")],
  ["exit status and stderr of cmd/test"])

p("C19", "kill delivers the requested signal to the named processes only",
  "kill sends to every process whose number is given exactly the requested signal - TERM by default, the one named after -s (in any letter case) or numbered after - otherwise, and none for signal 0, which only checks that the process exists - and to no other process. It exits 0 if all of them could be signalled. It exits non-zero with a diagnostic, and without signalling anything, if a signal name, signal number or process number is invalid or missing.",
  ["inputs", "configurations"], "all argument vectors to a stated length over signal selectors, two live recording processes, a dead process and junk",
  "cmd/kill has no tests.",
  ["cmd/kill/main.go"], [m("argument parsing", "cmd/kill/main.go main"), m("signal delivery", "cmd/kill/main.go main")],
  ["signals recorded by target processes", "exit status"])

p("C20", "locale reports each category's effective value and its source",
  "For every setting of LANG, LC_ALL and the six LC_ category variables, locale prints LANG, then each category exactly once, then LC_ALL. A category's value is LC_ALL if that is set and not empty, otherwise its own variable if set and not empty, otherwise LANG; it is printed without quotes only when it comes from its own variable and inside double quotes when it is implied. Values are printed unchanged whatever characters they contain.",
  ["configurations", "inputs"], "all assignments of unset, empty and three values to the eight variables (the full product)",
  "locale's environment handling has no tests.",
  ["pkg/locale/locale.go", "cmd/locale/main.go"], [m("override and fallback", "pkg/locale/locale.go getVal"), m("report", "pkg/locale/locale.go String")],
  ["locale.FromEnv().String()", "stdout of cmd/locale"])

p("C21", "The locale-definition parser accepts exactly well-formed categories",
  "A definition whose categories (LC_CTYPE, LC_COLLATE order lists, LC_MESSAGES, LC_MONETARY, LC_NUMERIC, LC_TIME) contain only their own keywords with operands of the right kind and are closed by the matching END line is accepted; comment lines, continuation lines ended by the escape character, and comment_char or escape_char redefinitions before the first category do not change that. A definition with an unknown category or keyword, a keyword of another category, a missing or wrong operand, an unclosed string or a missing or mismatched END line is never accepted. In LC_COLLATE this covers an order list: order_start with no operand or a list of forward, backward and position words separated by semicolons or commas, one symbol per line, and order_end. Not judged here: copy, ellipses, weights, collating elements and symbols, empty LC_TIME strings and blanks at line ends. Parsing always terminates.",
  ["inputs"], "all definitions of one or two categories and a few lines over the full keyword tables with right and wrong operands",
  "The tests parse five well-formed definitions; the list of malformed ones in the test file is never run.",
  ["pkg/locale/localelex.go", "pkg/locale/localedef.y", "pkg/locale/y.go"], [m("preprocessing of comments and continuations", "pkg/locale/localelex.go removeComments"), m("lexer states", "pkg/locale/localelex.go"), m("grammar", "pkg/locale/y.go")],
  ["result of parsing through NewLexer"])

p("C22", "No utility exits 0 after losing input or output",
  "If opening, reading or closing-before-use of an input fails, or writing standard output fails, at any point of a run of cat, cksum, cmp, diff, head, locale or tsort, the utility exits non-zero (above 1 for cmp and diff) and says so on standard error; it never passes off a partial input or output as complete. Short reads, short writes and interrupted calls that the system may return at any point change nothing in the output or status.",
  ["fault_sequences"], "every input and output system call of representative runs of each utility x every plausible error, short transfer or interruption, one fault per run (two in the thorough tier)",
  "No test injects an I/O fault.",
  ["cmd/cat/main.go", "cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/locale/main.go", "cmd/tsort/main.go"], [m("error checks on reads and writes", "cmd/*/main.go")],
  ["exit status, stdout and stderr under injected faults"])

p("C23", "Era entries are parsed field by field or rejected",
  "An era entry direction:offset:start:end:name:format is accepted exactly when it has at least six colon-separated fields, its direction is + or - and its offset is an integer; otherwise an error is returned. Two accepted entries yield equal eras exactly when their fields are equal (the offset as a number), colons after the fifth belonging to the format. The era's reverse, offset, startDate, endDate, name and format hold the entry's fields in that order (reverse is true for -).",
  ["inputs"], "all entries over small field alphabets with up to eight fields, compared pairwise",
  "No test calls the era parser.",
  ["pkg/locale/time.go"], [m("field splitting and checks", "pkg/locale/time.go NewEra")],
  ["NewEra result and error"])

p("C24", "Separate objects and sessions do not disturb each other",
  "Piece tables, compiled patterns, option parsers, diffs, sorters, eras and ed sessions are independent of each other: operations on different ones, alternating in one goroutine or at the same time in several, give each user exactly what it gets when it is alone, under every schedule. The verdict on a locale definition does not depend on definitions read before or at the same time. Two ed sessions that save to the same file both succeed and leave one of the two texts whole and no other file behind.",
  ["schedules", "histories"], "all schedules with one or two preemptions (before any statement) of pairs of clients, all orders of the operations of pairs of clients, and many clients at once",
  "The tests use one object at a time and never two goroutines, so state shared by accident (a package variable, a reused buffer, a fixed temporary name) cannot show.",
  ["pkg/txt/piece_table.go", "pkg/regexes/bre_evaluate.go", "pkg/flag/parse.go", "pkg/diff/diff.go", "pkg/tsort/tsort.go", "pkg/locale/time.go", "pkg/locale/localelex.go", "pkg/ed/ed.go"], [m("no state outside the objects", "package variables of pkg/*"), m("exclusive temporary files", "pkg/ed/ed.go Write")],
  ["results of every operation of every client", "files saved by ed"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
