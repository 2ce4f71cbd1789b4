#!/usr/bin/env python3
"""mkbug.py SPEC.py...: makes seeded/<id>/ from specs calling bug(...), then confirms each: build, stable tests, demo, checks."""
import os, sys, json, subprocess, re
V = "/verif"; R = "/repo"
BZZ = '''#!/bin/bash
# runs a Buzz script with the built tools and compares what it logs
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
T=$PWD/_build/buzz
cp "$(dirname "$0")"/* "$D"/ 2>/dev/null
cd "$D"
export BUZZ_INCLUDE_PATH=
"$T/bzzparse" demo.bzz demo.basm >/dev/null || exit 3
"$T/bzzasm" demo.basm demo.bo demo.bdb >/dev/null || exit 4
timeout 60 "$T/bzzrun" demo.bo demo.bdb > out.txt 2> err.txt
diff expected.txt out.txt
'''
CDEMO = '''#!/bin/bash
# builds demo.c against the sources of the tree and runs it
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
S=$PWD/src
SRC=$(ls "$S"/buzz/*.c | grep -v -E '/(buzzrun|buzzparse|buzzasm_main|buzzdeasm_main).c$')
cd "$D"
gcc -std=c99 -D_GNU_SOURCE -w -g %s -I"$S" -o demo "$H/demo.c" $SRC -lm || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
COMMON_C = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_common.h")).read() if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_common.h")) else ""
BUGS = []
def bug(id, prop, edits, needs, what, bzz=None, expected=None, c=None, sh=None, files=None, san=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, bzz=bzz, expected=expected, c=c, sh=sh, files=files or {}, san=san))
def run(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)
def build(): return run("bash /opt/vp/build.sh").returncode == 0
def tests():
    run("bash /opt/vp/test.sh /tmp/mkbug.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/mkbug.json"))
    def n(x):
        for k in ("passed", "stable", "tests", "pass"):
            if isinstance(x, dict) and k in x: return set(x[k])
        return set(x)
    return n(b) - n(o)
def clean(): run("git -C /repo checkout -- ."); 
def demo(d): return run("bash %s/demo.sh" % d, cwd=R)
def main():
    skipcheck = "--nocheck" in sys.argv
    for f in sys.argv[1:]:
        if f.endswith(".py"): exec(open(f).read(), globals())
    assert run("git -C /repo status --porcelain -uno").stdout.strip() == ""
    build()
    sel = os.environ.get("ONLY"); 
    for b in BUGS:
        if sel and b["id"] not in sel.split(","): continue
        d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        for f, o, n in b["edits"]:
            p = os.path.join(R, f if "/" in f else "src/buzz/" + f); s = open(p).read()
            if s.count(o) != 1: print(b["id"], "EDIT MISMATCH", f, s.count(o), repr(o[:80])); clean(); break
            open(p, "w").write(s.replace(o, n))
        else:
            open(d + "/patch.diff", "w").write(run("git -C /repo diff").stdout)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
            if b["bzz"] is not None:
                open(d + "/demo.bzz", "w").write(b["bzz"]); open(d + "/demo.sh", "w").write(BZZ)
            if b["c"] is not None:
                open(d + "/demo.c", "w").write(b["c"]); open(d + "/demo.sh", "w").write(CDEMO % ("-fsanitize=address" if b["san"] else ""))
                open(d + "/demo_common.h", "w").write(COMMON_C)
            if b["sh"] is not None: open(d + "/demo.sh", "w").write(b["sh"])
            for k, v in b["files"].items(): open(d + "/" + k, "w").write(v)
            clean(); build()
            if b["bzz"] is not None and b["expected"] is None:  # record the unchanged tree's output (reviewed by hand)
                open(d + "/expected.txt", "w").write(""); r = demo(d)
                out = [l[2:] for l in r.stdout.splitlines() if l.startswith("> ")]
                open(d + "/expected.txt", "w").write("\n".join(out) + ("\n" if out else ""))
            elif b["expected"] is not None: open(d + "/expected.txt", "w").write(b["expected"])
            r0 = demo(d)
            a = run("git -C /repo apply %s/patch.diff" % d)
            ok = build(); miss = tests() if ok else {"build"}
            r1 = demo(d)
            res = "demo %d -> %d, %s" % (r0.returncode, r1.returncode, "tests ok" if not miss else "TESTS BROKEN %s" % sorted(miss)[:4])
            chk = ""
            if not skipcheck and ok and not miss:
                c = run("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s --tier quick" % b["prop"], cwd=V)
                chk = "check rc=%d %s" % (c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or l.startswith("OK")][-1:])
                chk += " " + c.stdout.splitlines()[0][:200] if c.stdout else c.stderr[-300:]
            clean()
            good = r0.returncode == 0 and r1.returncode != 0 and not miss
            print(b["id"], "GOOD" if good else "BAD", res, "|", chk, flush=True)
            if not good: print("   ", a.stderr[:200], r0.stdout[-300:], r0.stderr[-300:])
    clean(); build()
main()
