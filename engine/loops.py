"""Summaries of loops that go through a text character by character.

At a loop head the analysis looks for an iterator over the characters of an unbounded text
symbol. The body is interpreted once for each kind of character, with an opaque marker in place
of the rest of the text. Where control comes back to the head with exactly the marker left, and
all that changed is that something was appended to texts (or that a byte position advanced by
the length of the character), the body acts on each such character by itself: the whole run of
these characters is then passed over in one step, the appended text being the characterwise
image of the symbol. Other characters are left to ordinary interpretation."""
from dom import *
import ropes
from ropes import Infeasible, bind, restrict, sub, branches, bind_char

MARK = Ap(T("looprest"), ALL, 0, BIG)
ITS = ("chars", "charidx")
_live = {}
_loops = {}


def place_uses(pl, out):
    out.add(pl[0])
    for p in pl[1]:
        if p != "*" and p[0] == "i":
            out.add(p[1])


def op_uses(o, out):
    if o[0] in ("c", "m"):
        place_uses(o[1], out)


def rv_uses(rv, out):
    k = rv[0]
    if k == "agg":
        for o in rv[2]:
            op_uses(o, out)
        return
    for x in rv[1:]:
        if isinstance(x, list) and x:
            if x[0] in ("c", "m") and len(x) == 2 and isinstance(x[1], list):
                op_uses(x, out)
            elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                place_uses(x, out)


def liveness(ip, inst):
    """locals that may be read, at the start of each block"""
    r = _live.get(inst)
    if r is not None:
        return r
    blocks = ip.p.insts[inst]["body"]["blocks"]
    gen, kill = [], []
    for b in blocks:
        g, k = set(), set()

        def use(us):
            g.update(u for u in us if u not in k)
        for s in b["s"]:
            us = set()
            if s[0] == "=":
                rv_uses(s[2], us)
                if s[1][1]:
                    place_uses(s[1], us)
                use(us)
                if not s[1][1]:
                    k.add(s[1][0])
            elif s[0] == "sd":
                place_uses(s[1], us)
                use(us)
        t = b["t"]
        us = set()
        if t[0] == "switch":
            op_uses(t[1], us)
        elif t[0] == "assert":
            op_uses(t[1], us)
        elif t[0] == "call":
            op_uses(t[1], us)
            for o in t[2]:
                op_uses(o, us)
            if t[3][1]:
                place_uses(t[3], us)
        elif t[0] == "return":
            us.add(0)
        use(us)
        if t[0] == "call" and not t[3][1]:
            k.add(t[3][0])
        gen.append(g)
        kill.append(k)
    live = [set() for _ in blocks]
    ch = True
    while ch:
        ch = False
        for i in range(len(blocks) - 1, -1, -1):
            out = set()
            for j in ip.succ(blocks[i]):
                out |= live[j]
            n = gen[i] | (out - kill[i])
            if n != live[i]:
                live[i] = n
                ch = True
    _live[inst] = live
    return live


def loop_blocks(ip, inst, head):
    r = _loops.get((inst, head))
    if r is not None:
        return r
    blocks = ip.p.insts[inst]["body"]["blocks"]
    succ = [ip.succ(b) for b in blocks]
    fwd, todo = set(), [head]
    while todo:
        x = todo.pop()
        if x not in fwd:
            fwd.add(x)
            todo.extend(succ[x])
    pred = {}
    for i, ss in enumerate(succ):
        for j in ss:
            pred.setdefault(j, []).append(i)
    back, todo = set(), [head]
    while todo:
        x = todo.pop()
        if x not in back:
            back.add(x)
            todo.extend(pred.get(x, ()))
    r = fwd & back
    _loops[(inst, head)] = r
    return r


def find_its(v, path, out, depth=0):
    if isinstance(v, N):
        if v.k in ITS and isinstance(v.f[0], Rope):
            out.append(path)
        elif v.k == "map" and isinstance(v.f[0], N):
            find_its(v.f[0], path + (("n", 0),), out, depth)
        elif v.k == "peek" and v.f[1] is None and isinstance(v.f[0], N) and v.f[0].k in ITS:
            out.append(path + (("n", 0),))
    elif isinstance(v, A) and depth < 3:
        for i, x in enumerate(v.f):
            find_its(x, path + (("f", i),), out, depth + 1)


def get(v, path):
    for k, i in path:
        v = v.f[i]
    return v


def put(v, path, x):
    if not path:
        return x
    k, i = path[0]
    f = list(v.f)
    f[i] = put(f[i], path[1:], x)
    return A(v.ty, v.v, tuple(f)) if isinstance(v, A) else N(v.k, *f)


def reachable(st, cells, seen):
    """cells reachable from values through unique references"""
    todo = list(cells)
    while todo:
        c = todo.pop()
        if c in seen or c not in st.cells:
            continue
        seen.add(c)
        muts(st.cells[c], todo)


def muts(v, out):
    if isinstance(v, Mut):
        out.append(v.c)
    elif isinstance(v, (A, N)):
        for x in v.f:
            muts(x, out)
    elif isinstance(v, tuple):
        for x in v:
            muts(x, out)
    elif isinstance(v, Seq):
        for x in v.e:
            muts(x, out)
    elif isinstance(v, (Ref, Bx)):
        muts(v.v, out)


class No(Exception):
    pass


def suffix(old, new):
    """what was appended to a rope"""
    o, n = old.s, new.s
    if len(n) < len(o):
        raise No
    for i, x in enumerate(o):
        if x == n[i]:
            continue
        if i == len(o) - 1 and isinstance(x, str) and isinstance(n[i], str) and n[i].startswith(x):
            return mk_rope([n[i][len(x):]] + list(n[i + 1:]))
        raise No
    return mk_rope(n[len(o):])


def diff(st, old, new, path, out):
    """differences between two values: appended texts and advanced numbers"""
    if isinstance(old, Rope) and isinstance(new, Rope):
        a, b = st.norm(old), st.norm(new)
        if a != b:
            out[path] = ("t", suffix(a, b))
        return
    if isinstance(old, (int, Lin)) and isinstance(new, (int, Lin)) and not isinstance(old, bool) and not isinstance(new, bool):
        a, b = st.nint(old), st.nint(new)
        if a != b:
            out[path] = ("i", st.nint(lin_add(b, a, -1)))
        return
    if type(old) is type(new):
        if isinstance(old, A) and old.v == new.v and len(old.f) == len(new.f) or isinstance(old, N) and old.k == new.k and len(old.f) == len(new.f):
            for i, (x, y) in enumerate(zip(old.f, new.f)):
                diff(st, x, y, path + (("f", i),), out)
            return
    if old is new or type(old) is type(new) and old == new:
        return
    raise No


def unpeek(v, depth=0):
    """an iterator with a character looked at in advance, as one with the character still in
    its text"""
    if isinstance(v, N) and v.k == "peek" and v.f[1] is not None and isinstance(v.f[0], N) and v.f[0].k == "chars" and isinstance(v.f[0].f[0], Rope):
        x, r = v.f[1][0], v.f[0].f[0]
        if isinstance(x, int):
            return N("peek", N("chars", mk_rope([chr(x)] + list(r.s))), None)
        if isinstance(x, ChS):
            return N("peek", N("chars", mk_rope([Cs(x.id)] + list(r.s))), None)
        if not r.s:
            return N("peek", v.f[0], None)
    elif isinstance(v, A) and depth < 3 and v.f:
        f = tuple(unpeek(x, depth + 1) for x in v.f)
        if any(a is not b for a, b in zip(f, v.f)):
            return A(v.ty, v.v, f)
    return v


def marked(x):
    r = repr(x)
    return "looprest" in r or "notlooked" in r


def step(ip, st, inst, fr, bb, ctx, c, p, r):
    """one turn of a loop that may look at the character after the one it takes, with an opaque
    marker in place of the text after the first character: where the turn does not depend on
    that text, there is no need to take the text apart"""
    x = r.s[0]
    lo, la = loop_blocks(ip, inst, bb), liveness(ip, inst)
    nloc = len(ip.p.insts[inst]["body"]["locals"])
    na, nc = len(ip.abandoned), len(ip.checks)
    s0 = st.clone()
    it = get(s0.cells[c], p)
    s0.cells[c] = put(s0.cells[c], p, N(it.k, Rope((x, MARK)), *it.f[1:]))
    out = []
    try:
        for s, v in ip.exec(s0, inst, fr, bb, None, ctx, True, nloc, (bb, lo)):
            if not (isinstance(v, tuple) and len(v) == 2 and v[0] == "at"):
                raise No
            if c not in s.cells:
                raise No
            now = get(s.cells[c], p)
            if not isinstance(now, N) or now.k != it.k or s.norm(now.f[0]).s != (MARK,):
                raise No
            s.cells[c] = put(s.cells[c], p, N(it.k, Rope(r.s[1:]), *now.f[1:]))
            used = set()
            reachable(s, [(fr, l) for l in la[v[1]]], used)
            for k, y in list(s.cells.items()):
                if marked(y):
                    if k[0] != fr or k in used:
                        raise No
                    del s.cells[k]
            if s.facts != st.facts and marked(s.facts):
                raise No
            out.append((s, v[1], None))
        if len(ip.abandoned) > na:
            raise No
    except (No, Abandon, Infeasible, AttributeError, IndexError):
        del ip.abandoned[na:]
        del ip.checks[nc:]
        return None
    return out


def at_head(ip, st, inst, fr, bb, n, ctx, body):
    live = liveness(ip, inst)[bb]
    cells = set()
    reachable(st, [(fr, l) for l in live], cells)
    its = []
    for c in cells:
        v = unpeek(st.cells[c])
        if v is not st.cells[c]:
            st.cells[c] = v
        ps = []
        find_its(st.cells[c], (), ps)
        its += [(c, p) for p in ps]
    for c, p in its:
        r = st.norm(get(st.cells[c], p).f[0])
        if r.s and isinstance(r.s[0], (Sy, Hm)) and st.syms[r.s[0].id].hi > 1:
            got = summarise(ip, st, Turn(ip, inst, fr, bb, ctx, live), c, p, r)
            if got is not None:
                return [(s, bb, None) for s in got]
        elif p and p[-1] == ("n", 0) and len(r.s) > 1 and isinstance(r.s[1], (Sy, Hm)) and (isinstance(r.s[0], Cs) or isinstance(r.s[0], str) and len(r.s[0]) == 1) and st.syms[r.s[1].id].hi > 1:
            got = step(ip, st, inst, fr, bb, ctx, c, p, r)
            if got is not None:
                return got
    return None


class Turn:
    """one turn of a loop of the program"""

    def __init__(self, ip, inst, fr, bb, ctx, live):
        self.ip, self.inst, self.fr, self.bb, self.ctx, self.live = ip, inst, fr, bb, ctx, live
        self.nloc = len(ip.p.insts[inst]["body"]["locals"])
        self.lb = loop_blocks(ip, inst, bb)

    def turn(self, s):
        for s2, v in self.ip.exec(s, self.inst, self.fr, self.bb, None, self.ctx, True, self.nloc, (self.bb, self.lb)):
            yield s2, isinstance(v, tuple) and v[0] == "at" and v[1] == self.bb

    def dead(self, c):
        return c[0] == self.fr and c[1] not in self.live


class Fold:
    """one turn of a consumer of an iterator: its cell holds the iterator, what has been
    accumulated and the function"""

    def __init__(self, cell, turn):
        self.cell, self.turn = cell, turn

    def dead(self, c):
        return False


def fold_run(ip, st, cell, turn):
    """the states after a run of characters that the consumer treats alike, or None"""
    its = []
    find_its(st.cells[cell], (), its)
    for p in its:
        r = st.norm(get(st.cells[cell], p).f[0])
        if r.s and isinstance(r.s[0], (Sy, Hm)) and st.syms[r.s[0].id].hi > 1:
            got = summarise(ip, st, Fold(cell, turn), cell, p, r)
            if got is not None:
                return got
    return None


def trial(ip, st, run, c, p, r, kind):
    """effects of the body on one kind of character: list of (class, effects)"""
    x = r.s[0]
    s0 = st.clone()
    k = None
    if kind[0] == "m":
        a, img = kind[1], kind[2]
        rope = mk_rope([img, MARK])
    else:
        k = s0.fresh("lc", kind="c", cs=kind[1])
        if bin(kind[1]).count("1") == 1 and ropes.is_single(kind[1].bit_length() - 1):
            bind_char(s0, k, ord(ATOM_REPR[kind[1].bit_length() - 1]))
        rope = mk_rope([Cs(k), MARK])
    it = get(s0.cells[c], p)
    s0.cells[c] = put(s0.cells[c], p, N(it.k, rope, *it.f[1:]))
    base = s0.clone()
    out = []
    work = [(s0, 0)]
    ok = kind[1] if kind[0] != "m" else 1
    seen = 0
    while work:
        s, t = work.pop()
        if t > 6:
            return []
        for s2, back in run.turn(s):
            if not back:
                continue
            now = get(s2.cells[c], p)
            rest = s2.norm(now.f[0])
            if rest.s != (MARK,):
                if len(rest.s) < 1 or rest.s[-1] != MARK:
                    continue
                work.append((s2, t + 1))
                continue
            # everything but appended texts is as before
            try:
                if s2.facts != base.facts:
                    raise No
                for id, y in base.syms.items():
                    z = s2.syms.get(id)
                    if id != k and z is not y:
                        raise No
                eff = {}
                for c2, v2 in base.cells.items():
                    if run.dead(c2):
                        continue
                    if c2 not in s2.cells:
                        raise No
                    d = {}
                    if c2 == c:
                        diff(s2, put(v2, p, N("x", None, *it.f[1:])), put(s2.cells[c2], p, N("x", None, *now.f[1:])), (), d)
                    else:
                        diff(s2, v2, s2.cells[c2], (), d)
                    for pth, e in d.items():
                        eff[(c2, pth)] = e
                if k is not None:
                    y = s2.syms[k]
                    if y.avoid:
                        raise No
                    cls = 1 << atom_of(y.bind) if isinstance(y.bind, int) else y.cs
                    if isinstance(y.bind, int) and not ropes.is_single(atom_of(y.bind)):
                        raise No
                    src = s2.norm(Rope((Cs(k),)))
                else:
                    cls = 1 << kind[1]
                    src = R(kind[2])
                res = {}
                for key, (tk, e) in eff.items():
                    if tk == "i":
                        if e != s2.rlen(src):
                            raise No
                        res[key] = ("i",)
                    elif e.lit() is not None:
                        res[key] = ("t", e.lit())
                    elif k is not None and e.s == src.s:
                        res[key] = ("t", None)        # the character itself
                    else:
                        raise No
                out.append((cls, res))
            except No:
                out.append((y_cls(s2, k, kind), None))
    return out


def y_cls(s, k, kind):
    if k is None:
        return 1 << kind[1]
    y = s.syms[k]
    return 1 << atom_of(y.bind) if isinstance(y.bind, int) else y.cs


def summarise(ip, st, run, c, p, r):
    x = r.s[0]
    m = dict(x.m) if isinstance(x, Hm) else {}
    cs = st.syms[x.id].cs
    kinds = [("m", a, m[a]) for a in atoms(cs) if a in m]
    idc = sum(1 << a for a in atoms(cs) if a not in m)
    if idc:
        kinds.append(("id", idc))
    na, nc = len(ip.abandoned), len(ip.checks)
    effects = {}
    bad = 0
    lost = set()
    for kd in kinds:
        if kd[0] == "m" and kd[2] == "":
            effects[kd[1]] = {}
            continue
        def take(kd):
            try:
                got = trial(ip, st, run, c, p, r, kd)
            except (Abandon, Infeasible):
                got = []
            del ip.abandoned[na:]
            del ip.checks[nc:]
            return got
        got = take(kd)
        for cls, e in list(got):
            # several characters of which something is made: one after the other
            if e is None and kd[0] == "id" and cls & (cls - 1) and all(ropes.is_single(a) for a in atoms(cls)) and bin(cls).count("1") <= 16:
                got.remove((cls, e))
                for a in atoms(cls):
                    got += take(("id", 1 << a)) or [(1 << a, None)]
        for cls, e in got:
            for a in atoms(cls):
                if e is None or a in effects and effects[a] != e:
                    bad |= 1 << a
                else:
                    effects[a] = e
    # a character that can also take a way out of the loop, or fail, is not summarised: such
    # ways are those whose characters no completed way accounts for; the others are excluded
    # by trying the remaining characters again on their own
    good = sum(1 << a for a in effects) & ~bad
    good = confirm(ip, st, run, c, p, r, m, good)
    del ip.abandoned[na:]
    del ip.checks[nc:]
    if not good:
        return None
    stop = cs & ~good
    it = get(st.cells[c], p)

    def passed(s, part):
        """the state after the run, part being the segment passed over"""
        keys = {k for a in atoms(good) for k in effects[a]}
        seg = s.norm(Rope((part,)))
        for key in keys:
            c2, pth = key
            old = s.cells[c2]
            v = get2(old, pth)
            kinds_ = {effects[a].get(key, ("none",))[0] for a in atoms(good)}
            if "i" in kinds_:
                if kinds_ != {"i"}:
                    raise Abandon("counter in a text loop")
                s.cells[c2] = put2(old, pth, s.nint(lin_add(v, s.rlen(seg))))
                continue
            mp = {}
            for a in atoms(good):
                e = effects[a].get(key)
                if e is None:
                    mp[a] = ""
                elif e[1] is not None:
                    if not (a < 128 and e[1] == chr(a)):
                        mp[a] = e[1]
                elif a in m:
                    mp[a] = m[a]
            img = s.norm(Rope((Hm(part.id, tuple(sorted(mp.items()))) if mp else Sy(part.id),)))
            s.cells[c2] = put2(old, pth, cat(v, img))
    res = []

    def whole(s):
        restrict(s, x.id, good)
        if s.syms[x.id].bind is None:
            passed(s, x)
        cell = s.cells[c]
        now = get(cell, p)
        s.cells[c] = put(cell, p, N(now.k, Rope(r.s[1:]), *now.f[1:]))
        return None

    def part(g):
        def f(s):
            y = s.syms[x.id]
            # the part passed over may be empty
            a = sub(s, x.id, x.id, cs=good)
            k = sub(s, x.id, "c", cs=g, kind="c")
            q = sub(s, x.id, x.id)
            bind(s, x.id, Rope((Sy(a), Cs(k), Sy(q))))
            if g & (g - 1) == 0 and ropes.is_single(g.bit_length() - 1):
                bind_char(s, k, ord(ATOM_REPR[g.bit_length() - 1]))
            passed(s, Hm(a, x.m) if isinstance(x, Hm) else Sy(a))
            rest = s.norm(Rope((x,)))
            # drop the part passed over
            segs = list(rest.s)[1:] if rest.s and not isinstance(rest.s[0], str) and getattr(rest.s[0], "id", None) == a else None
            if segs is None:
                raise Abandon("text loop")
            cell = s.cells[c]
            now = get(cell, p)
            s.cells[c] = put(cell, p, N(now.k, mk_rope(segs + list(r.s[1:])), *now.f[1:]))
            return None
        return f
    fs = [whole]
    y = st.syms[x.id]
    if y.hi > 0 and stop:
        for a in atoms(stop):
            if a in m:
                fs.append(part(1 << a))
        rest = sum(1 << a for a in atoms(stop) if a not in m)
        if rest:
            fs.append(part(rest))
    for s, _ in branches(st, *fs):
        res.append(s)
    return res


def get2(v, path):
    for k, i in path:
        v = v.f[i]
    return v


put2 = put


def confirm(ip, st, run, c, p, r, m, good):
    """keep only the characters all of whose ways through the body come back to the head"""
    out = 0
    idc = sum(1 << a for a in atoms(good) if a not in m)
    kinds = [("m", a, m[a]) for a in atoms(good) if a in m and m[a]] + ([("id", idc)] if idc else [])
    for a in atoms(good):
        if a in m and not m[a]:
            out |= 1 << a
    for kd in kinds:
        if complete(ip, st, run, c, p, r, kd):
            out |= (1 << kd[1]) if kd[0] == "m" else kd[1]
        elif kd[0] == "id":
            for a in atoms(kd[1]):
                if complete(ip, st, run, c, p, r, ("id", 1 << a)):
                    out |= 1 << a
    return out


def complete(ip, st, run, c, p, r, kind):
    s0 = st.clone()
    if kind[0] == "m":
        rope = mk_rope([kind[2], MARK])
    else:
        k = s0.fresh("lc", kind="c", cs=kind[1])
        if bin(kind[1]).count("1") == 1 and ropes.is_single(kind[1].bit_length() - 1):
            bind_char(s0, k, ord(ATOM_REPR[kind[1].bit_length() - 1]))
        rope = mk_rope([Cs(k), MARK])
    it = get(s0.cells[c], p)
    s0.cells[c] = put(s0.cells[c], p, N(it.k, rope, *it.f[1:]))
    na = len(ip.abandoned)
    work = [(s0, 0)]
    while work:
        s, t = work.pop()
        if t > 6:
            return False
        for s2, back in run.turn(s):
            if not back:
                return False
            rest = s2.norm(get(s2.cells[c], p).f[0])
            if rest.s != (MARK,):
                if not rest.s or rest.s[-1] != MARK:
                    return False
                work.append((s2, t + 1))
        if len(ip.abandoned) > na:
            return False
    return True
