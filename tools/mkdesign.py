#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the bounds in the checks, the planted bugs and design_tail.md."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
M = {
"C01": "Depth-first enumeration of all Insert/Delete sequences from every start (zero value, empty, small originals) at every in-range position and length; the content is read at every step or only at the end, the caller's slice is overwritten after each Insert. Oracle: the same edits on a byte slice. Beyond tests: a fault needs a particular relation of earlier piece borders to the new edit; all relations of small edits are visited.",
"C02": "All command sequences over an alphabet of operations, and a breadth-first search over the states of the model (contents, current line) with every operation tried from every state; after each sequence `.=` and `,n` read the state back. Executed on ed.Itor.ProcessCommands. Oracle: mc/edm.",
"C03": "Every address form (base x offset), alone and in every pair with , and ;, from every start state, under every command that uses it. Oracle: the address evaluator in mc/edm, written from POSIX, with substring search.",
"C04": "Every invalid line from every state, alone, in pairs and repeated, followed by valid commands and probes; all short strings over a token alphabet (lines whose meaning the property leaves open must leave the session alive); sequences with files check that nothing is written. Oracle: mc/edm (response begins with '?', state unchanged).",
"C05": "Every text from hostile lines under every command form; series of input commands; sizes. Oracle: list of lines.",
"C06": "Stateless search of the real editor under a controlled environment: arrivals of input and ends of writes are events; all orders of events, all divisions of the input, and all placements of preemptions are enumerated; at every quiescent point exactly the complete commands must have been answered. The binary is driven in lock step through pipes. Oracle: sequential run of mc/edm.",
"C07": "Round trips of all short contents and of sizes at buffer limits; histories of e/w/edit/outside changes; ranges; modes; names; faults of every system call of an e. After each the whole directory is compared with the model's file system. Oracle: bytes.",
"C08": "For each w scenario the calls of a fault-free run are listed; then each call is made to kill the process before/after it, to tear the write at every byte, to fail with each errno, to be short or interrupted (thorough: every pair). After each run the directory is compared with old/new contents and the responses with the two allowed sequences. A second variant repeats the w after the failure.",
"C09": "All pairs of line sequences over small alphabets and structured larger ones on pkg/diff; the printed script is parsed strictly and applied forwards and backwards. Oracle: patch semantics.",
"C10": "All pairs of small files and boundary sizes through the command; strict script application on bytes, exit status. Oracle: byte comparison plus patch semantics.",
"C11": "All pairs of small files x options x position of stdin, every byte pair, one difference at every buffer boundary, all divisions of stdin, all operand lists. Oracle: the POSIX rules evaluated on the bytes.",
"C12": "All sequences of pairs and all relations on few words; for those every choice of map iteration orders within the deviation bound; families of large graphs through the command. Oracle: acyclicity by elimination, validity of the printed order.",
"C13": "All patterns up to a size against all inputs up to a length; the set of matching inputs is compared with a derivative-style matcher over the pattern's own syntax tree.",
"C14": "All argument lists up to a length over an alphabet of bundles, values, operands and unknown letters. Oracle: getopt model.",
"C15": "All short contents, every length in several fillings, table and buffer boundaries, operand lists, stdin divisions. Oracle: bitwise CRC from POSIX.",
"C16": "All operand lists, contents, sizes, kinds of output, stdin divisions. Oracle: concatenation.",
"C17": "All operand lists x n x contents; stdin in every division, kept open after the last wanted line. Oracle: line splitter.",
"C18": "All argument lists of up to 4 over alphabets of operators and operands, file primaries on one file of every kind. Oracle: the POSIX grammar by argument count. The known defects are described by a second model (`defect`), so that only answers which differ from both are violations.",
"C19": "All argument lists over an alphabet, all signal numbers and names, up to 19 targets. The targets are real processes of a private user with all signals blocked, so what was sent is read from /proc; a bystander and a process of another user must stay untouched.",
"C20": "All assignments of 4 (5) values to the 8 variables in process, odd values through the command. Oracle: the precedence rule.",
"C21": "Definitions generated from keyword x operand x context, mutated headers, ENDs, layouts; all short strings of pieces. The parser runs in a helper process (it may panic). Oracle: a recogniser written from POSIX, with three answers (accept, reject, not judged).",
"C22": "For each run of each utility the system calls of a fault-free run are listed, then each is failed with each errno, interrupted or cut short (thorough: pairs), and all transfers are cut to 1, 2, 3, 7, 1000 bytes. Oracle: the fault-free result, or a reported failure.",
"C24": "`mc/yieldinst` inserts a preemption point before every statement of the hand-written files of seven packages (go build -overlay, nothing in /repo). Two clients, each using its own object with its own expected results, run as goroutines on one processor; every schedule with the stated number of preemptions is executed. Without preemption points every order of the two clients' operations is executed, and crowds of clients in four orders. Locale definitions are lexed by goroutines of a third-party package, so pairs of them are parsed in a helper process in all orders of making and using the lexers; overlapping lexers with different escape characters are an open finding (package variable escapeChar; the lexer package gives its state functions nothing to carry the character in, so there is no small repair). Two editors saving to one file are run under all schedules too. If the instrumentation does not apply to a package, that package is explored without it. Oracle: each client's own model (byte string, matches known by construction, line list, order checker, script application).",
"C23": "All combinations of field alphabets and all short strings; accepted entries are compared pairwise, and fields that are readable by reflection under their names with the entry. Oracle: field splitter.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(here + "/design_head.md").read()]
for p in props:
    i = p["id"]; src = open(f"{V}/mc/{i.lower()}/main.go").read()
    b = re.search(r'Bounds:\s*(?:fmt\.Sprintf\()?"((?:[^"\\]|\\.)*)"', src).group(1)
    b = json.loads('"' + b + '"').replace("%d", "n")
    seeds = []
    for s in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{s}/meta.json"))
        if m["property"] == i: seeds.append(f"{s} ({m['needs']})")
    out.append(f"### {i} {p['title']}\n\n{M[i]}\n\nBounds (thorough in parentheses): {b}.\n")
    if seeds: out.append("Planted bugs, all caught by the quick check: " + "; ".join(seeds) + ".\n")
out.append(open(here + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
