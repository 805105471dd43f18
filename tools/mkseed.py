#!/usr/bin/env python3
"""mkseed.py SPECFILE [ID…]: make and confirm planted bugs.  SPECFILE defines SEEDS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], lisp=.../c=.../sh=..., out=...)}.
Confirms in a scratch copy: builds, stable tests pass, demo 0 on clean / nonzero with patch."""
import sys, os, subprocess, json, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:] or list(ns["SEEDS"])
OUT = "/verif/seeded"
LISP = r'''#!/bin/bash
# runs the program beside this file on the built interpreter and compares what it prints
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); mkdir "$D/.mnml"; cd "${REPO:-$PWD}"
out=$(HOME=$D MNML_SCRIPT_PATH=$PWD/share/mnml timeout 120 _build/bin/mnml -d "$H/demo.l" 2>/dev/null </dev/null); rc=$?
[ "$out" = "$(cat "$H/expected")" ] && [ $rc = 0 ] && exit 0
echo "exit status $rc, output: ${out:0:300}"; exit 1
'''
HEAD = "(load '(std %s) '(math + - * / %% < > <= >=) '(logic and or not = <>) '(io prin prinl print printl))\n" % "def setq let \\\\ list cons car cdr conc quote prog if when unless cond match while <- len chr str sym eval |> nil? num? chr? str? sym? lst? atm? tru?".replace("\\\\", "\\")
def run(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
for i in ids:
    sp = ns["SEEDS"][i]
    d = os.path.join(OUT, i)
    subprocess.run(["git", "-C", "/repo", "diff", "--quiet"], check=True)
    for f, old, new in sp["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        if s.count(old) != 1: print(i, "edit does not apply", f, s.count(old)); break
        open(p, "w").write(s.replace(old, new))
    else:
        diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "lisp" in sp:
            open(d + "/demo.l", "w").write(HEAD + sp["lisp"] + "0\n")
            open(d + "/expected", "w").write(sp["out"])
            open(d + "/demo.sh", "w").write(LISP)
        if "c" in sp: open(d + "/demo.c", "w").write(sp["c"])
        if "sh" in sp: open(d + "/demo.sh", "w").write(sp["sh"])
        os.chmod(d + "/demo.sh", 0o755)
        b = run(["bash", "/opt/vp/build.sh"], "/repo")
        c0 = run(["bash", d + "/demo.sh"], "/repo", timeout=300)
        a = run(["git", "apply", d + "/patch.diff"], "/repo")
        try:
            b = run(["bash", "/opt/vp/build.sh"], "/repo")
            t = run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], "/repo")
            tj = json.load(open("/tmp/seedtest.json"))
            c1 = run(["bash", d + "/demo.sh"], "/repo", timeout=300)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        nf = tj["failed"] if isinstance(tj["failed"], list) else [None] * tj["failed"]
        ok = b.returncode == 0 and not nf and len(tj["passed"]) if isinstance(tj["passed"], list) else (b.returncode == 0 and not nf)
        good = ok and c0.returncode == 0 and c1.returncode != 0
        print(i, "OK" if good else "BAD", "build", b.returncode, "failed tests", nf[:4], "demo clean", c0.returncode, "patched", c1.returncode, "" if good else (c0.stdout[-300:], c1.stdout[-300:]))
        continue
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
subprocess.run(["bash", "/opt/vp/build.sh"], cwd="/repo", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
