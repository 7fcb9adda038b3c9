#!/usr/bin/env python3
"""Planted bugs: (re)generates /verif/seeded/<id>/ from the definitions in tools/seeds.d
and confirms each in a scratch copy of /repo (builds, stable tests pass, demo tells
the trees apart).  With --check also runs the property's quick check on /repo.

A definition is a Python file that sets PROP, NEEDS, BREAKS, SUBS = [(file, old, new), ...],
DEMO (text of demo.sh) and optionally FILES = {name: text}."""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
PRE = '''#!/bin/bash
# cwd: the repository.  Exit 0: the property holds on this demonstration.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(mktemp -d) || exit 9
trap 'chmod -R u+rwx "$d"; rm -rf "$d"' EXIT
build() { go build -o "$d/$1" "./cmd/$1" || exit 9; }
# gotest PKG FILE: run an in-package test that lies beside this script
gotest() { printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/%s"}}' "$PWD" "$1" "$here" "$2" > "$d/o.json"; timeout 120 go test -vet=off -count=1 -overlay "$d/o.json" -run TestDemo "./$1"; }
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)
def tests(d):
    r = sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vx github.com/fwip/posix-utils/cmd/tail)", cwd=d)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and "Test" in e: ok.add((e["Package"], e["Test"]))
    return ok
def main():
    check = "--check" in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    defs = sorted(f[:-3] for f in os.listdir(f"{here}/tools/seeds.d") if f.endswith(".py"))
    base = None
    for n in defs:
        if names and n not in names: continue
        g = {}
        exec(open(f"{here}/tools/seeds.d/{n}.py").read(), g)
        out = f"{here}/seeded/{n}"
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(f"{out}/demo.sh", "w").write(PRE + g["DEMO"].lstrip("\n")); os.chmod(f"{out}/demo.sh", 0o755)
        for k, v in g.get("FILES", {}).items(): open(f"{out}/{k}", "w").write(v.lstrip("\n"))
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            w = tmp + "/repo"; demo = tmp + "/demo"
            sh(f"git clone -q /repo {w}"); shutil.copytree(out, demo)
            if base is None: base = tests(w)
            r0 = sh(f"bash {demo}/demo.sh", cwd=w)
            bad = False
            for f, o, nw in g["SUBS"]:
                s = open(f"{w}/{f}").read()
                if s.count(o) != 1: print(n, "SUBSTITUTION", f, s.count(o)); bad = True; break
                open(f"{w}/{f}", "w").write(s.replace(o, nw))
            if bad: continue
            sh("gofmt -l .", cwd=w)
            open(f"{out}/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
            b = sh("go build $(go list -e ./... | grep -vx github.com/fwip/posix-utils/cmd/tail)", cwd=w)
            t = tests(w)
            r1 = sh(f"bash {demo}/demo.sh", cwd=w)
            ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and base <= t
            print(n, g["PROP"], "OK" if ok else f"BAD demo {r0.returncode}->{r1.returncode} build {b.returncode} lost {sorted(base-t)[:3]}\n{r0.stdout[-1500:]}\n--\n{r1.stdout[-1500:]}\n{b.stdout[-800:]}", flush=True)
        finally:
            shutil.rmtree(tmp)
        if check and ok:
            a = sh(f"git -C /repo apply {out}/patch.diff")
            if a.returncode: print(a.stdout); continue
            try:
                r = sh(f"./check.sh {g['PROP']} quick", cwd=here)
            finally:
                sh("git -C /repo checkout -- .")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("   check:", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:], flush=True)
            open(f"/tmp/seedlog-{n}", "w").write(r.stdout)
main()
