"""Rules decided by the compiler alone, next to the lemmas."""
import itertools
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, prog):
    return {"C38": features}.get(prop, lambda p: ([], {}))(prog)


def features(prog):
    """the library type-checks with every combination of its optional features"""
    sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True, cwd="/repo")
    m = sh("cargo +nightly metadata --offline --no-deps --format-version 1")
    names = []
    if m.returncode == 0:
        for p in json.loads(m.stdout)["packages"]:
            if p["name"] == "icalendar":
                names = sorted(f for f in p["features"] if f != "default")
    if len(names) <= 5:
        sets = [c for n in range(len(names) + 1) for c in itertools.combinations(names, n)]
    else:
        sets = [()] + [(a,) for a in names] + list(itertools.combinations(names, 2)) + [tuple(names)]
    bad, done = [], []
    for s in sets:
        r = sh("CARGO_TARGET_DIR=%s/harness/target/features cargo +nightly check --offline -q --lib --no-default-features %s" % (
            VERIF, "--features " + ",".join(s) if s else ""))
        what = "+".join(s) or "none"
        if r.returncode == 0:
            done.append(what)
        else:
            errors = [l for l in r.stderr.split("\n") if l.startswith("error") or l.lstrip().startswith("-->")]
            if not any("--> src" in l for l in errors):
                continue     # not an error in the source: a dependency cannot be had here
            bad.append(("features/" + what, "the library does not type-check with the features %s\n  %s" % (what, "\n  ".join(errors[:6]))))
    if len(bad) == len(sets):
        bad = []             # it does not build at all: that is not about features
    return bad, {"feature_combinations_type_checked": done}
