#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Exhaustive over the stated bounds on the real code rebuilt from /repo, judged by an independent reference model; beyond the bounds it gives no guarantee. Trusts the Go toolchain, the kernel and the reference model in /verif/mc."
T = {
 "C01": ("explicit enumeration of all edit sequences to a depth on the real piece table, compared with a byte-string model", ""),
 "C02": ("exhaustive operation sequences and breadth-first search over editor states, executed on the real editor and compared with a line-list model", ""),
 "C03": ("exhaustive enumeration of address forms x editor states on the real editor, compared with a POSIX address evaluator", ""),
 "C04": ("exhaustive enumeration of invalid command lines x editor states with state probes; all short command strings", ""),
 "C05": ("exhaustive enumeration of input texts over a hostile line alphabet x command and address forms", ""),
 "C06": ("exhaustive exploration of reader/executor/writer schedules of the real editor in a controlled bubble, and of all input chunkings", ""),
 "C07": ("exhaustive enumeration of file contents x e/w histories on the real editor with a file-system model", ""),
 "C08": ("exhaustive crash-point and fault enumeration at the system-call layer of the real ed binary", ""),
 "C09": ("exhaustive enumeration of pairs of line sequences; printed scripts are applied forwards and backwards", ""),
 "C10": ("exhaustive enumeration of pairs of files and operand lists on the diff binary", ""),
 "C11": ("exhaustive enumeration of pairs of inputs, options and operand lists on the cmp binary", ""),
 "C12": ("exhaustive enumeration of relations, pair orders and hash-map iteration orders (controlled choice points)", ""),
 "C13": ("exhaustive enumeration of patterns x strings against a reference matcher", ""),
 "C14": ("exhaustive enumeration of argument lists against a getopt model", ""),
 "C15": ("exhaustive enumeration of contents, lengths and operand lists against a bitwise CRC", ""),
 "C16": ("exhaustive enumeration of operand lists, contents and input arrival patterns on the cat binary", ""),
 "C17": ("exhaustive enumeration of operand lists, contents, counts and input arrival patterns on the head binary", ""),
 "C18": ("exhaustive enumeration of argument lists against the POSIX argument-count rules on the test binary", ""),
 "C19": ("exhaustive enumeration of argument lists with recording target processes of an unprivileged user", ""),
 "C20": ("exhaustive enumeration of environments against the POSIX precedence rule", ""),
 "C21": ("exhaustive enumeration of definitions (keyword x operand x END x mutation) on the real parser against category tables", ""),
 "C22": ("exhaustive fault enumeration: every system call of every run x errno, short count, interruption, on the real binaries", ""),
 "C24": ("exhaustive exploration of all schedules with a bounded number of preemptions (statement-level preemption points, one processor) and of all operation interleavings of pairs of clients on the real code", ""),
 "C23": ("exhaustive enumeration of era entries from field alphabets", ""),
}
have = [i for i in T if os.path.exists(f"{here}/mc/{i.lower()}/main.go")]
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
man = {
 "version": 1,
 "setup_cmd": "cd mc && GOFLAGS=-mod=mod GOPROXY=off go build ./core",
 "checks": [{
   "property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + T[i][0], "level": "model_checking",
   "level_note": (T[i][1] + " " if T[i][1] else "") + COMMON} for i in props if i in have],
 "not_applicable": [{"property": i, "reason": "no check yet in this revision"} for i in props if i not in have],
 "notes": "No hooks in /repo: instrumentation is compiled in with go build -overlay from files in /verif. See DESIGN.md.",
}
json.dump(man, open(f"{here}/MANIFEST.json", "w"), indent=1)

# repairs: subject of the commit -> (property, what failed)
FIXED = json.load(open(f"{here}/tools/fixed.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, subj = l.split(" ", 1)
    if not subj.startswith("fix:"):
        continue
    if subj not in FIXED:
        print("no entry for", subj); continue
    p, what = FIXED[subj]
    fixed.append(f"fixed: property={p} {h} {what}")
open_ = json.load(open(f"{here}/tools/open.json")) if os.path.exists(f"{here}/tools/open.json") else []
json.dump({"findings": open_, "fixed": fixed}, open(f"{here}/known_findings.json", "w"), indent=1)
