import sys, time, threading
sys.setrecursionlimit(20000); threading.stack_size(512*1024*1024)
sys.path.insert(0, "/verif/engine")
import natives, interp
from dom import *
def main():
    p = interp.Program(sys.argv[1])
    names = [n for n in p.roots if "::v::" not in n and "::util::" not in n and p.insts[p.roots[n]]["body"]["args"] == 0 and (len(sys.argv) < 3 or any(((a == n) if "-x" in sys.argv else (a in n)) for a in sys.argv[2:] if not a.startswith("-")))]
    for n in names:
        ip = interp.Interp(p, natives.Natives())
        ip.trace = "-t" in sys.argv
        t = time.time()
        st = State()
        ends = 0; pan = []
        try:
            for s, v in ip.run(st, p.roots[n], []):
                ends += 1
                if isinstance(v, Panic): pan.append(v)
        except Budget as e:
            print("BUDGET", e)
        from collections import Counter
        c = Counter((i, v) for i, v, s, _ in ip.checks)
        print("%-40s paths %d panics %d abandoned %d %.2fs %s" % (n, ends, len(pan), len(ip.abandoned), time.time() - t, dict(c)))
        for pn in pan[:3]: print("    PANIC", pn.msg, [(x[0],x[2]) for x in pn.at[:4]])
        for a, k in Counter((a[0], a[1][:3] if a[1] else None, a[2][:3] if a[2] else None) for a in ip.abandoned).most_common(8): print("    ", k, a)
        if "-w" in sys.argv:
            import witness
            for i, v, s, _ in ip.checks:
                if not v: print("   WITNESS", i, witness.find(s))
        for i, v, s, _ in ip.checks:
            if not v and "-v" in sys.argv: print("   FALSE", i, [(f, b) for f, b in s.facts], {k: (y.bind, y.lo, y.hi) for k, y in list(s.syms.items())[:12]})

t = threading.Thread(target=main); t.start(); t.join()
