#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides the lemmas of one property on /repo's current source.

The source is compiled (checked, not linked) with a compiler wrapper that writes out the typed
intermediate representation of everything the lemmas reach; the lemmas are then decided by
abstract interpretation of it. Nothing of the library is run."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

PROP = sys.argv[1].upper()
TIER = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
RECORD = "--record" in sys.argv
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CACHE = os.path.join(VERIF, ".cache")
EVID = os.path.join(VERIF, "evidence")
LEMMA_SECS = 60 if TIER == "quick" else 300
TOTAL_SECS = 600 if TIER == "quick" else 780
MEM_LIMIT = 5 << 30
T0 = time.time()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    """the compiler wrapper, then the representation of the lemmas and the library"""
    os.makedirs(CACHE, exist_ok=True)
    r = sh("cd %s/driver && flock %s/driver.lock cargo build --release --offline -q" % (VERIF, CACHE))
    if r.returncode:
        print(r.stdout)
        sys.exit(3)
    out = os.path.join(CACHE, PROP.lower() + ".json")
    if os.path.exists(out):
        os.unlink(out)
    feats = PROP.lower() + (",deep" if TIER == "thorough" else "")
    r = sh("flock %s/dump.lock bash %s/tools/dump.sh %s %s" % (CACHE, VERIF, out, feats))
    if r.returncode or not os.path.exists(out):
        return None, r.stdout
    return out, ""


def lemma(name, secs):
    """decide one lemma in this process; returns a plain dictionary, partial if time runs out"""
    res = {"name": name, "error": "no answer in time", "checks": {}, "panics": [], "npanics": 0, "abandoned": [], "nabandoned": 0,
           "funcs": [], "nfuncs": 0, "paths": 0, "secs": 0}
    done = []

    def go():
        try:
            lemma1(name, secs, res)
            done.append(1)
        except MemoryError:
            res["error"] = "out of memory"
        except BaseException as e:
            res["error"] = "internal: %r" % e
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(secs + 45)
    return res


def limited(name, secs, f):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    res = lemma(name, secs)
    with open(f + ".tmp", "w") as o:
        json.dump(res, o)
    os.rename(f + ".tmp", f)
    os._exit(0)


def decide_all(names, secs):
    """every lemma in a process of its own, with limits of its own"""
    import gc
    import signal
    import tempfile
    gc.collect()
    gc.freeze()
    width = min(8, os.cpu_count() or 1)
    with tempfile.TemporaryDirectory(dir=CACHE) as d:
        running, out, queue = {}, {}, list(names)
        while queue or running:
            late = time.time() - T0 > TOTAL_SECS
            while queue and len(running) < width and not late:
                n = queue.pop(0)
                f = os.path.join(d, str(len(out) + len(running) + len(queue)) + "-" + str(time.time()))
                pid = os.fork()
                if pid == 0:
                    try:
                        limited(n, secs, f)
                    finally:
                        os._exit(1)
                running[pid] = (n, f, time.time())
            if late and queue:
                for n in queue:
                    out[n] = gone(n, "not started in time")
                queue = []
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                for p, (n, f, t) in running.items():
                    if time.time() - t > secs + 60 or time.time() - T0 > TOTAL_SECS + 60:
                        os.kill(p, signal.SIGKILL)
                time.sleep(0.01)
                continue
            n, f, t = running.pop(pid)
            try:
                out[n] = json.load(open(f))
            except (OSError, ValueError):
                out[n] = gone(n, "no answer in time or out of memory")
        return [out[n] for n in names]


def gone(n, why):
    return {"name": n, "error": why, "checks": {}, "panics": [], "npanics": 0, "abandoned": [], "nabandoned": 0, "funcs": [], "nfuncs": 0, "paths": 0, "secs": 0}


def lemma1(name, secs, res):
    import natives, interp, witness
    from dom import State, Budget, Panic, Abandon
    import traceback
    ip = interp.Interp(PROG, natives.Natives(), max_secs=secs)
    t = time.time()
    paths, panics, err = 0, [], None
    try:
        for s, v in ip.run(State(), PROG.roots[name], []):
            paths += 1
            if isinstance(v, Panic):
                panics.append((s, v))
    except Budget as e:
        err = "budget: %s" % e
    except Abandon as e:
        ip.abandoned.append((str(e), None, None))
    except RecursionError:
        err = "recursion"
    except Exception:
        err = "internal: " + traceback.format_exc()[-600:]
    from collections import Counter
    ab = Counter()
    for msg, site, inner in ip.abandoned:
        ab[(msg[:200], (site[0], rel(site[1]), site[2]) if site else None)] += 1
    checks, pn = {}, []
    res.update({"checks": checks, "panics": pn, "npanics": len(panics), "paths": paths, "error": err or "the search for members did not end",
                "abandoned": [[k[0], k[1], n] for k, n in ab.most_common(10)], "nabandoned": len(ip.abandoned),
                "funcs": sorted({PROG.insts[i]["path"] for i in ip.funcs if PROG.insts[i]["krate"] == "icalendar"}),
                "nfuncs": len(ip.funcs), "secs": round(time.time() - t, 2)})
    for id, v, s, _ in ip.checks:
        c = checks.setdefault(id, {"true": 0, "false": 0, "fails": [], "unconfirmed": None})
        if v:
            c["true"] += 1
        else:
            c["false"] += 1
            if c["false"] <= 12 and len(c["fails"]) < 2:
                w = witness.find(s, seed=SEED)
                if isinstance(w, dict):
                    c["fails"].append({"values": show(w), "path": path_of(s)})
                else:
                    c["unconfirmed"] = "no member found" if w is None else "no evaluation of " + w
    for s, p in panics[:12]:
        w = witness.find(s, seed=SEED)
        site = next((x for x in p.at if x[3] == "icalendar"), p.at[0])
        pn.append({"msg": str(p.msg), "site": site[0], "line": "%s:%d" % (rel(site[1]), site[2]),
                   "chain": ["%s (%s:%d)" % (x[0], rel(x[1]), x[2]) for x in p.at[:12]],
                   "values": show(w) if isinstance(w, dict) else None, "path": path_of(s),
                   "why": None if isinstance(w, dict) else w or "no member found"})
        if sum(1 for x in pn if x["values"] is not None) >= 3:
            break
    res["error"] = err
    res["secs"] = round(time.time() - t, 2)


def rel(f):
    return f.replace("/repo/", "")


def show(w):
    return {k: v if isinstance(v, (int, bool)) else repr(v)[:300] for k, v in list(w.items())[:40]}


def path_of(s):
    """the decisions taken inside the library on the way"""
    out, c = [], s.stack
    while c and len(out) < 25:
        (inst, sp, bb), c = c
        line = "%s at %s:%d -> bb%d" % (PROG.insts[inst]["path"], rel(PROG.files[sp[0]]), sp[1], bb)
        if not out or out[-1] != line:
            out.append(line)
    return out[::-1]


def main():
    global PROG
    try:
        cfg = json.load(open(os.path.join(VERIF, "engine", "obligations.json"))).get(PROP, {})
    except FileNotFoundError:
        cfg = {}
    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            if l.strip() and l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == PROP:
                    known.append(k)
    violations = []      # (key, text)
    dump, log = build()
    results = []
    rules_ev = {}
    if dump is None:
        base = sh("cd /repo && CARGO_TARGET_DIR=%s/harness/target/plain cargo +nightly check --offline -q --lib --all-features" % VERIF)
        if base.returncode:
            print("the library does not build")
            print(base.stdout[-3000:])
            sys.exit(3)
        violations.append(("interface", "the public interface the property speaks about is gone or has lost a guarantee of its types: the lemmas no longer type-check against the library\n" + log[-4000:]))
    else:
        import interp
        import natives
        PROG = interp.Program(dump)
        pre = "icalharness::%s::" % PROP.lower()
        names = [n for n in PROG.roots if n.startswith(pre) and PROG.insts[PROG.roots[n]]["body"]["args"] == 0]
        names = [n for n in names if not RET_VALUE(n)]
        results = decide_all(names, LEMMA_SECS)
        try:
            import rules
            rv, rules_ev = rules.run(PROP, PROG)
            violations += rv
        except ImportError:
            pass
    found = {r["name"] for r in results}
    undecided = []
    nob = ndis = npaths = 0
    floor = cfg.get("lemmas", {})
    if dump is not None and not RECORD:
        for n in floor:
            if n not in found:
                print("lemma %s is missing" % n)
                sys.exit(3)
    rec = {}
    for r in results:
        short = r["name"].split("::", 1)[1]
        npaths += r["paths"]
        bad = r["nabandoned"] or r["error"] if "nabandoned" in r else True
        want = floor.get(r["name"], [])
        if r["error"]:
            undecided.append("%s: %s" % (short, r["error"]))
        confirmed = [p for p in r["panics"] if p["values"] is not None]
        for id in sorted(set(want) | set(r["checks"])):
            nob += 1
            c = r["checks"].get(id)
            if c is None:
                undecided.append("%s: '%s' was not reached" % (short, id))
            elif c["fails"]:
                f = c["fails"][0]
                violations.append(("%s/%s" % (short, id), "obligation '%s' of %s fails\n  for values: %s\n  decided in the library along:\n    %s\n  analysed functions:\n    %s" % (
                    id, short, json.dumps(f["values"], ensure_ascii=True), "\n    ".join(f["path"]), "\n    ".join(r["funcs"]))))
            elif c["false"]:
                undecided.append("%s: '%s' is not established (%s)" % (short, id, c["unconfirmed"]))
            elif bad:
                undecided.append("%s: '%s' holds on the %d paths analysed, but %d were given up: %s" % (short, id, c["true"], r["nabandoned"], r["error"] or r["abandoned"][0]))
                ndis += 0
            else:
                ndis += 1
                rec.setdefault(r["name"], []).append(id)
        seen = set()
        for p in r["panics"]:
            if p["values"] is None:
                undecided.append("%s: panic '%s' in %s is not excluded (%s)" % (short, p["msg"], p["site"], p["why"]))
            elif p["site"] not in seen:
                seen.add(p["site"])
                violations.append(("%s/panic in %s" % (short, p["site"]), "%s fails: %s\n  at %s\n  for values: %s\n  calls: %s" % (
                    short, p["msg"], p["line"], json.dumps(p["values"]), " <- ".join(p["chain"]))))
    if RECORD:
        f = os.path.join(VERIF, "engine", "obligations.json")
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[PROP] = {"lemmas": {k: sorted(v) for k, v in sorted(rec.items())}}
        json.dump(d, open(f, "w"), indent=0, sort_keys=True)
    # ---------------------------------------------------------------- verdict
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    new, old = [], []
    for key, text in violations:
        k = next((k for k in known if k["key"] == key), None)
        (old if k else new).append((key, text, k))
    shown = set()
    for key, text, k in old:
        if k["key"] not in shown:
            shown.add(k["key"])
            print("KNOWN-FINDING: property=%s %s" % (PROP, k["what"]))
    for i, (key, text, _) in enumerate(new[:20]):
        rp = os.path.join(EVID, "replay", "%s-%d.txt" % (PROP, i))
        with open(rp, "w") as f:
            f.write("property %s\nkey %s\n%s\n" % (PROP, key, text))
        print("VIOLATION property=%s replay=%s" % (PROP, rp))
        print("  " + text.split("\n")[0])
        for l in text.split("\n")[1:3]:
            print("  " + l[:600])
    funcs = sorted({f for r in results for f in r["funcs"]})
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "other", "wall_s": round(time.time() - T0, 1),
        "violations": len(new),
        "coverage": {
            "explanation": "Abstract interpretation of the library's MIR, entered through %d lemma functions over its public interface. "
                           "An obligation is discharged when it holds in every abstract state that reaches it; a violation is reported only "
                           "for an abstract state shown to have a member. Undecided obligations are listed and claim nothing." % len(results),
            "lemmas": len(results), "obligations": nob, "discharged": ndis, "undecided": undecided[:200],
            "abstract_paths": npaths, "library_functions_analysed": len(funcs), "functions": funcs,
            "per_lemma": {r["name"].split("::", 1)[1]: {"paths": r["paths"], "obligations": len(r["checks"]), "secs": r["secs"]} for r in results},
            **rules_ev,
        },
    }
    ev["coverage"]["rule"] = "obligation true in every abstract state reaching it; states not reached because the analysis gave up leave it undecided"
    with open(os.path.join(EVID, PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s %s: %d lemmas, %d obligations, %d discharged, %d undecided, %d abstract paths, %d library functions, %.1fs" % (
        PROP, TIER, len(results), nob, ndis, len(undecided), npaths, len(funcs), time.time() - T0))
    if "-v" in sys.argv:
        for u in undecided:
            print("  undecided", u)
    sys.exit(1 if new else 0)


def RET_VALUE(n):
    """helpers of the lemmas that return something are not lemmas"""
    b = PROG.insts[PROG.roots[n]]["body"]
    t = PROG.types[b["locals"][0]]
    return not (t["k"] == "tuple" and not t["elems"])


main()
