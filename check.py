#!/usr/bin/env python3
"""Driver: builds the code under test from /repo's working tree together with
one property's harness, runs the generated-input search, writes the evidence
file, prints VIOLATION / KNOWN-FINDING lines.

usage: check.py <property-id> [--tier quick|thorough] [--replay FILE] [--only TEST] [--scale X]
"""
import sys, os, json, hashlib, subprocess, tempfile, shutil, glob, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUZZ = os.path.join(SRC, "buzz")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
MAINS = {"buzzrun.c", "buzzparse.c", "buzzasm_main.c", "buzzdeasm_main.c"}
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
CC, CXX = "/usr/bin/gcc", "/usr/bin/g++"

COMMON_C = ["-std=c99", "-D_GNU_SOURCE", "-w", "-g", "-I" + SRC, "-fno-omit-frame-pointer"]
VARIANTS = {
    # the optimisation level the project ships with
    "plain": dict(c=["-Os", "-DNDEBUG"], cxx=["-O1"], link=[]),
    "asan": dict(c=["-O1", "-fsanitize=address"], cxx=["-O0", "-fsanitize=address"], link=["-fsanitize=address"]),
}
COMMON_CXX = ["-std=gnu++17", "-D_GNU_SOURCE", "-w", "-I" + SRC, "-I" + HARN]

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    return sorted(p for p in glob.glob(os.path.join(BUZZ, "*.c")))


def compile_one(args):
    out, cmd = args
    if os.path.exists(out):
        return None
    tmp = "%s.%d.tmp" % (out, os.getpid())
    r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return "command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:])
    os.rename(tmp, out)
    return None


class BuildError(Exception):
    pass


def build(prop, variant):
    """returns (harness binary, dict of tool binaries)"""
    os.makedirs(BUILD, exist_ok=True)
    v = VARIANTS[variant]
    hdrs = b"".join(read(p) for p in sorted(glob.glob(os.path.join(BUZZ, "*.h"))))
    cflags = COMMON_C + v["c"]
    jobs, libobjs, mainobjs = [], [], {}
    for s in sources():
        base = os.path.basename(s)
        extra = []
        key = h(variant, " ".join(cflags), hdrs, base, read(s))
        o = os.path.join(BUILD, "%s-%s-%s.o" % (base[:-2], variant, key))
        jobs.append((o, [CC] + cflags + extra + ["-c", s]))
        if base in MAINS:
            mainobjs[base] = o
        else:
            libobjs.append(o)
    hs = os.path.join(HARN, PROPS[prop]["harness"])
    hp = b"".join(read(p) for p in sorted(glob.glob(os.path.join(HARN, "*.hpp"))))
    key = h(variant, hdrs, hp, read(hs), " ".join(COMMON_CXX + v["cxx"]))
    ho = os.path.join(BUILD, "%s-%s-%s.o" % (os.path.basename(hs)[:-4], variant, key))
    jobs.append((ho, [CXX] + COMMON_CXX + v["cxx"] + ["-c", hs]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    lk = h(ho, "gc", *sorted(libobjs))
    exe = os.path.join(BUILD, "%s-%s-%s" % (prop, variant, lk))
    links = [(exe, [CXX] + v["link"] + ["-Wl,--wrap=buzzheap_gc"] + [ho] + libobjs + ["-lm"])]
    tools = {}
    if PROPS[prop].get("tools"):
        for m, o in mainobjs.items():
            t = os.path.join(BUILD, "tool-%s-%s-%s" % (m[:-2], variant, h(o, *sorted(libobjs))))
            tools[m[:-2]] = t
            links.append((t, [CC] + v["link"] + [o] + libobjs + ["-lm"]))
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        errs = [e for e in ex.map(compile_one, links) if e]
    if errs:
        raise BuildError("\n".join(errs))
    return exe, tools


def environment(tools):
    env = dict(os.environ)
    for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "BUZZ_INCLUDE_PATH", "BZZPARSE", "BZZASM"):
        env.pop(k, None)
    env["BUZZ_SRC_INCLUDE"] = os.path.join(SRC, "include")
    env["LC_ALL"] = "C"
    for k, t in tools.items():
        env["TOOL_" + k.upper()] = t
    env["TOOL_BZZC_IN"] = os.path.join(SRC, "utility", "bzzc.in")
    return env


def run_variant(prop, variant, tier, seed, scratch, extra):
    exe, tools = build(prop, variant)
    env = environment(tools)
    out = os.path.join(scratch, "out-%s.json" % variant)
    os.makedirs(REPLAYS, exist_ok=True)
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--variant", variant, "--out", out,
           "--replaydir", REPLAYS, "--scratch", scratch] + extra
    r = subprocess.run(cmd, env=env, cwd=scratch)
    try:
        return r.returncode, json.loads(read(out))
    except Exception as e:  # harness died
        return 5, {"rc": 5, "evaluations": 0, "distinct": 0, "wall": 0, "classes": {}, "samples": [],
                   "harness_error": "runner exit %d, no stats (%s)" % (r.returncode, e), "message": "", "replay": ""}


def elsewhere(prop, variant, scratch):
    """The case left in unreproduced.replay, run three times with each other build of the property."""
    src = os.path.join(scratch, "unreproduced.replay")
    if not os.path.exists(src):
        return None
    for other in PROPS[prop].get("variants", {"plain": 1.0, "asan": 0.5}):
        if other == variant:
            continue
        exe, tools = build(prop, other)
        text = read(src)
        if isinstance(text, bytes):
            text = text.decode("utf-8", "replace")
        dst = os.path.join(REPLAYS, "%s-again-%s.replay" % (prop, other))
        with open(dst, "w") as f:
            f.write(text.replace("variant " + variant + "\n", "variant " + other + "\n", 1))
        out = ""
        for _ in range(3):
            r = subprocess.run([exe, "--replay", dst, "--scratch", scratch], env=environment(tools), cwd=scratch,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode != 1:
                os.unlink(dst)
                break
            out = r.stdout.decode("utf-8", "replace")
        else:
            return dst, out
    return None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # nothing to install: every check builds what it needs from /repo's tree
        for t in (CC, CXX):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("setup ok")
        sys.exit(0)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    extra, replay = [], None
    i = 1
    scale = 1.0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--replay":
            replay = a[i + 1]
        elif a[i] == "--scale":
            scale = float(a[i + 1])
        else:
            extra += [a[i], a[i + 1]]
        i += 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    t0 = time.time()
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="bzv-%s-" % prop, dir=base)
    try:
        if replay:
            variant = "plain"
            for line in open(replay):
                if line.startswith("variant "):
                    variant = line.split()[1]
                    break
            exe, tools = build(prop, variant)
            rc = subprocess.run([exe, "--replay", os.path.abspath(replay), "--scratch", scratch], env=environment(tools), cwd=scratch).returncode
            sys.exit(rc)
        results, viol, herr = {}, None, []
        try:
            with cf.ThreadPoolExecutor(max_workers=2) as ex:
                list(ex.map(lambda v: build(prop, v), P.get("variants", {"plain": 1.0, "asan": 0.5})))
        except BuildError as e:
            print("BUILD FAILED for %s\n%s" % (prop, e), file=sys.stderr)
            sys.exit(2)
        for variant, vs in P.get("variants", {"plain": 1.0, "asan": 0.5}).items():
            wall = "330" if tier == "quick" else "2400"
            try:
                rc, st = run_variant(prop, variant, tier, seed, scratch,
                                     ["--scale", str(vs * scale), "--maxwall", wall] + extra)
            except BuildError as e:
                print("BUILD FAILED for %s/%s\n%s" % (prop, variant, e), file=sys.stderr)
                sys.exit(2)
            # a failure that did not reproduce: try the same case with the other build,
            # then explore the rest without it
            skip, deadline = [], t0 + (360 if tier == "quick" else 3600)
            while rc == 4 and st.get("unreproduced"):
                herr.append("%s: %s" % (variant, st["harness_error"]))
                skip.append(st["unreproduced"])
                v = elsewhere(prop, variant, scratch)
                if v:
                    rc, st = 1, dict(st, replay=v[0], message=v[1])
                    break
                left = deadline - time.time()
                if len(skip) > 4 or left < 20:
                    break
                rc, st = run_variant(prop, variant, tier, seed, scratch,
                                     ["--scale", str(vs * scale), "--maxwall", "%d" % left,
                                      "--skip", ",".join(skip)] + extra)
            results[variant] = st
            if st.get("harness_error") and rc != 4:
                herr.append("%s: %s" % (variant, st["harness_error"]))
            if rc == 1:
                viol = st
                break
        evals = sum(s["evaluations"] for s in results.values())
        dist = sum(s["distinct"] for s in results.values())
        samples = [x for s in results.values() for x in s["samples"]][:8]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": dist, "rule": P["rule"],
                "samples": samples or ["(no sample: run stopped early)"],
                "classes": {v: s["classes"] for v, s in results.items()},
                "discarded": sum(s.get("discards", 0) for s in results.values()),
            },
            "wall_s": round(time.time() - t0, 2),
            "assumptions": P.get("assumptions", []),
            "violations": 1 if viol else 0,
        }
        if viol:
            ev["coverage"]["violation"] = {"replay": viol["replay"], "message": viol["message"][:3000]}
        if herr:
            ev["coverage"]["harness_notes"] = herr
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            print(viol["message"][:3000])
            print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
            sys.exit(1)
        for e in herr:
            print("note: " + e, file=sys.stderr)
        if any("harness exception" in e or "no stats" in e for e in herr) or evals == 0:
            sys.exit(2)
        print("OK property=%s tier=%s evaluations=%d nontrivial=%d wall=%.1fs" % (prop, tier, evals, dist, time.time() - t0))
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
