"""Operations on ropes. Each is a generator of (state, result) pairs: where the result
depends on what a symbol stands for, the state is partitioned and the symbol refined."""
from dom import *


class Infeasible(Exception):
    pass


MAXDEPTH = 6


def sub(st, id, name, cs=None, kind="s", lo=0, hi=None, step=1):
    """a fresh symbol for a part of symbol id"""
    y = st.syms[id]
    root = y.root or id
    if y.depth >= MAXDEPTH:
        raise Abandon("text symbol taken apart more than %d times" % MAXDEPTH)
    return st.fresh(name, kind=kind, cs=y.cs if cs is None else cs, lo=lo,
                    hi=(y.hi if kind == "s" else 4) if hi is None else hi, root=root, depth=y.depth + step)


def bind(st, id, rope):
    """refine text symbol id to a rope; raises Infeasible when that contradicts what is known"""
    y = st.syms[id]
    assert y.bind is None, id
    st.syms[id] = y.but(bind=rope)
    r = st.norm(rope)
    lit = r.lit()
    if lit is not None:
        n = len(lit.encode())
        if not (y.lo <= n <= y.hi) or lit in y.avoid or lit.lower() in y.avoid_ci:
            raise Infeasible()
        if any(not (y.cs >> atom_of(ord(c))) & 1 for c in lit):
            raise Infeasible()
        for f, v in st.facts:
            if f.op in ("req", "rlt"):
                p = st.norm(f.a[0]).lit()
                q = st.norm(f.a[1]).lit() if p is not None else None
                if q is not None and v != (p == q if f.op == "req" else p < q):
                    raise Infeasible()
    else:
        n = st.rlen(r)
        if y.lo > 0:
            assume_le(st, lin_add(y.lo, n, -1))
        if y.hi < BIG:
            assume_le(st, lin_add(n, y.hi, -1))
        for a in y.avoid:
            st.fact(B("req", Rope((Sy(id),)), R(a)), False)
        for a in y.avoid_ci:
            st.fact(B("reqci", Rope((Sy(id),)), R(a)), False)
    if not (lit or len(r.s) > 1):
        for f, v in st.facts:
            if f.op == "req" and not v and st.norm(f.a[0]) == st.norm(f.a[1]):
                raise Infeasible()
    # an ancestor may have become a literal that it must not be
    recheck(st, id)


def recheck(st, id):
    root = st.syms[id].root
    if root is None:
        return
    y = st.syms[root]
    if y.avoid or y.avoid_ci:
        lit = st.norm(Rope((Sy(root),))).lit()
        if lit is not None and (lit in y.avoid or lit.lower() in y.avoid_ci):
            raise Infeasible()


def bind_char(st, id, cp):
    y = st.syms[id]
    a = atom_of(cp)
    if not (y.cs >> a) & 1 or chr(cp) in y.avoid:
        raise Infeasible()
    st.syms[id] = y.but(bind=cp)
    recheck(st, id)


def restrict(st, id, cs):
    """narrow the character class of a symbol"""
    y = st.syms[id]
    n = y.cs & cs
    if n == y.cs:
        return
    if y.kind == "c":
        if n == 0:
            raise Infeasible()
        st.syms[id] = y.but(cs=n)
        if n & (n - 1) == 0:
            a = n.bit_length() - 1
            if is_single(a):
                bind_char(st, id, ord(ATOM_REPR[a]))
        return
    if n == 0:
        if y.lo > 0:
            raise Infeasible()
        st.syms[id] = y.but(cs=0)
        bind(st, id, EMPTY)
        return
    st.syms[id] = y.but(cs=n)


def assume_le(st, x):
    """assume x <= 0"""
    x = st.nint(x)
    lo, hi = st.irange(x)
    if lo > 0:
        raise Infeasible()
    if hi <= 0:
        return
    if len(x.t) > 1:
        st.fact(B("le", x), True)
    ch = tighten(st, x)
    n = 0
    while ch and n < 5:
        ch = False
        n += 1
        for f in st.le_facts(True):
            if isinstance(f, int):
                if f > 0:
                    raise Infeasible()
            elif tighten(st, f):
                ch = True


def tighten(st, x):
    """narrow the symbols of x to what x <= 0 leaves; True when something changed"""
    if st.irange(x)[0] > 0:
        raise Infeasible()
    ch = False
    for s, k in x.t:
        if s in st.syms and st.syms[s].bind is not None:
            continue
        rlo, _ = st.irange(lin_add(x, mk_lin(0, {s: k}), -1))
        # k*s <= -rest <= -rlo
        a, b = st.srange(s)
        if k > 0:
            nb = (-rlo) // k
            if nb < b:
                if not st.set_range(s, a, nb):
                    raise Infeasible()
                ch = True
        else:
            na = _ceil_div(rlo, -k)
            if na > a:
                if not st.set_range(s, na, b):
                    raise Infeasible()
                ch = True
    return ch


def entails(st, x, depth=3):
    """is x <= 0 a consequence of the intervals and of the known linear inequalities"""
    x = st.nint(x)
    if st.irange(x)[1] <= 0:
        return True
    if depth == 0 or isinstance(x, int):
        return False
    fs = st.le_facts()
    for s, k in x.t:
        if k <= 0:
            continue
        for f in fs:
            c = 0
            for s2, k2 in f.t:
                if s2 == s:
                    c = k2
                    break
            if c <= 0:
                continue
            # f <= 0: x <= x - (k/c) f
            y = lin_add(lin_scale(x, c), f, -k) if c != 1 else lin_add(x, f, -k)
            if isinstance(y, Lin) and len(y.t) > len(x.t) + 1:
                continue
            if entails(st, y, depth - 1):
                return True
    # negative coefficients: lower bounds
    for s, k in x.t:
        if k >= 0:
            continue
        for f in fs:
            c = 0
            for s2, k2 in f.t:
                if s2 == s:
                    c = k2
                    break
            if c >= 0:
                continue
            y = lin_add(lin_scale(x, -c), f, k) if c != -1 else lin_add(x, f, k)
            if isinstance(y, Lin) and len(y.t) > len(x.t) + 1:
                continue
            if entails(st, y, depth - 1):
                return True
    return False


def _ceil_div(a, b):
    return -((-a) // b)


def assume_eq0(st, x):
    x = st.nint(x)
    if isinstance(x, int):
        if x != 0:
            raise Infeasible()
        return
    lo, hi = st.irange(x)
    if lo > 0 or hi < 0:
        raise Infeasible()
    if len(x.t) == 1:
        s, k = x.t[0]
        if x.c % k:
            raise Infeasible()
        if not st.set_range(s, -x.c // k, -x.c // k):
            raise Infeasible()
        return
    assume_le(st, x)
    assume_le(st, lin_scale(x, -1))


def branches(st, *fs):
    """run each refinement on a copy of the state; yield (state, value) for the feasible ones"""
    for f in fs:
        s = st.clone()
        try:
            v = f(s)
        except Infeasible:
            continue
        yield s, v


# ---------------------------------------------------------------- deciding conditions
def decide(st, b):
    """yields (state, True/False)"""
    if b is True or b is False:
        yield st, b
        return
    if not isinstance(b, B):
        raise Abandon("condition is not known: %r" % (b,))
    if b.op == "not":
        for s, v in decide(st, b.a[0]):
            yield s, not v
        return
    if b.op == "or":
        for s, v in decide(st, b.a[0]):
            if v:
                yield s, True
            else:
                yield from decide(s, b.a[1])
        return
    if b.op == "and":
        for s, v in decide(st, b.a[0]):
            if not v:
                yield s, False
            else:
                yield from decide(s, b.a[1])
        return
    for f, v in st.facts:
        if f == b:
            yield st, v
            return
    if b.op == "le":
        x = st.nint(b.a[0])
        lo, hi = st.irange(x)
        if hi <= 0:
            yield st, True
        elif lo > 0:
            yield st, False
        else:
            neg = lin_add(lin_scale(x, -1), 1)
            for f, v in st.facts:
                if v and f.op == "le":
                    # known: f <= 0; x - f constant tells
                    d = lin_add(x, f.a[0], -1)
                    if isinstance(d, int) and d <= 0:
                        yield st, True
                        return
                    d = lin_add(neg, f.a[0], -1)
                    if isinstance(d, int) and d <= 0:
                        yield st, False
                        return
            if len(x.t) > 1 or st.facts:
                if entails(st, x):
                    yield st, True
                    return
                if entails(st, neg):
                    yield st, False
                    return

            def t(s):
                assume_le(s, x)
                return True

            def n(s):
                assume_le(s, neg)
                return False
            yield from branches(st, t, n)
        return
    if b.op == "eq":
        x = st.nint(b.a[0])
        lo, hi = st.irange(x)
        if isinstance(x, int):
            yield st, x == 0
        elif lo > 0 or hi < 0:
            yield st, False
        else:
            for f, v in st.facts:
                if v and f.op == "le":
                    for sg in (1, -1):
                        d = lin_add(lin_scale(x, sg), f.a[0], -1)
                        # sg*x = f + d <= d
                        if isinstance(d, int) and d < 0:
                            yield st, False
                            return

            def t(s):
                assume_eq0(s, x)
                return True

            def n1(s):
                assume_le(s, lin_add(x, 1))
                return False

            def n2(s):
                assume_le(s, lin_add(lin_scale(x, -1), 1))
                return False
            m = lin_scale(x, -1)
            le, ge = entails(st, x), entails(st, m)
            fs = [] if entails(st, lin_add(x, 1)) or entails(st, lin_add(m, 1)) else [t]
            if not ge:
                fs.append(n1)
            if not le:
                fs.append(n2)
            yield from branches(st, *fs)
        return
    if b.op == "chin":
        c, cs = b.a
        y = resolve_ch(st, c)
        if isinstance(y, int):
            yield st, bool((cs >> atom_of(y)) & 1)
            return
        have = st.syms[y.id].cs
        if have & cs == have:
            yield st, True
        elif have & cs == 0:
            yield st, False
        else:
            def t(s):
                restrict(s, y.id, cs)
                return True

            def n(s):
                restrict(s, y.id, ALL & ~cs)
                return False
            yield from branches(st, t, n)
        return
    if b.op == "cheq":
        yield from ch_eq(st, b.a[0], b.a[1])
        return
    if b.op == "req":
        yield from rope_eq(st, b.a[0], b.a[1])
        return
    if b.op in ("app", "rlt", "unk", "reqci", "contains", "starts"):
        for v in (True, False):
            s = st.clone()
            s.fact(b, v)
            yield s, v
        return
    raise Abandon("condition " + b.op)


def resolve_ch(st, c):
    while isinstance(c, ChS):
        b = st.syms[c.id].bind
        if b is None:
            return c
        c = b
    return c


def ch_eq(st, a, b):
    a, b = resolve_ch(st, a), resolve_ch(st, b)
    if isinstance(a, int) and isinstance(b, int):
        yield st, a == b
        return
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        y = st.syms[a.id]
        at = atom_of(b)
        if not (y.cs >> at) & 1 or chr(b) in y.avoid:
            yield st, False
            return

        def t(s):
            bind_char(s, a.id, b)
            return True

        def n(s):
            if is_single(at):
                restrict(s, a.id, ALL & ~(1 << at))
            else:
                s.syms[a.id] = s.syms[a.id].but(avoid=y.avoid | {chr(b)})
            return False
        yield from branches(st, t, n)
        return
    if a == b:
        yield st, True
        return
    for v in (True, False):
        s = st.clone()
        s.fact(B("cheq", a, b), v)
        yield s, v


# ---------------------------------------------------------------- matching literals
def sols(st, segs, lit, whole, limit=12):
    """ways in which the segments can begin with (whole: be equal to) the literal:
    list of (bindings, index of the next segment, remainder segment or None). Bindings is a
    tuple of (segment, text or (text, True) when the symbol only starts with it)."""
    out = []

    def go(i, rest, binds, cont=None):
        if len(out) > limit:
            raise Abandon("too many ways to match a text")
        if i == len(segs):
            if not rest:
                out.append((binds, i, None))
            return
        x = segs[i]
        if not rest and not whole:
            out.append((binds, i, None))
            return
        if isinstance(x, str):
            if len(rest) <= len(x):
                if x.startswith(rest):
                    if len(rest) == len(x):
                        go(i + 1, "", binds)
                    elif not whole:
                        out.append((binds, i, x[len(rest):]))
            elif rest.startswith(x):
                go(i + 1, rest[len(x):], binds)
            return
        if isinstance(x, Cs):
            y = st.syms[x.id]
            if rest and (y.cs >> atom_of(ord(rest[0]))) & 1 and rest[0] not in y.avoid:
                go(i + 1, rest[1:], binds + ((x, rest[0]),))
            return
        if isinstance(x, Ap):
            hit = ap_is(st, x, rest)
            if hit is False:
                return
            raise Abandon("comparison of an opaque text %r with %r" % (x, rest))
        y = st.syms[x.id]
        if isinstance(x, Hm):
            d = dict(x.m)
            if any(not im and (y.cs >> a) & 1 for a, im in x.m):
                raise Abandon("comparison of a filtered text")
            def hm(rest, pre):
                if not rest and not whole:
                    if len(pre.encode()) <= y.hi:
                        out.append((binds + ((x, (pre, True)),), i, x))     # it may go on
                    return
                # symbol ends here
                if y.lo <= len(pre.encode()):
                    go(i + 1, rest, binds + ((x, pre),))
                if not rest:
                    return
                for a, im in d.items():
                    if (y.cs >> a) & 1 and is_single(a):
                        if im and rest.startswith(im):
                            hm(rest[len(im):], pre + ATOM_REPR[a])
                        elif not whole and im.startswith(rest):
                            if len(pre.encode()) + ATOM_LEN[a] <= y.hi:
                                out.append((binds + ((x, (pre + ATOM_REPR[a], True)),), i, x))
                a = atom_of(ord(rest[0]))
                if a not in d and (y.cs >> a) & 1:
                    hm(rest[1:], pre + rest[0])
            if not whole and not rest:
                out.append((binds, i, None))
            else:
                hm(rest, "")
            return
        # plain text symbol
        n = 0
        while True:
            pre = rest[:n]
            k = len(pre.encode())
            if k > y.hi:
                break
            if n == len(rest) and not whole:
                # the symbol starts with all of it (and may go on)
                out.append((binds + ((x, (pre, True)),), i, x))
                break
            if k >= y.lo and pre not in y.avoid and pre.lower() not in y.avoid_ci:
                go(i + 1, rest[n:], binds + ((x, pre),))
            if n == len(rest) or not (y.cs >> atom_of(ord(rest[n]))) & 1:
                break
            n += 1
    go(0, lit, ())
    return out


def ap_is(st, x, lit):
    """can the opaque text be (the beginning of) the literal: False if not"""
    if not lit:
        return False if x.lo > 0 else None
    if not (x.cs >> atom_of(ord(lit[0]))) & 1:
        return False if x.lo > 0 else None
    n = 0
    for c in lit:
        if not (x.cs >> atom_of(ord(c))) & 1:
            break
        n += 1
    if n < x.lo and n < len(lit):
        return False
    return None


def apply_binds(st, binds):
    for x, v in binds:
        if isinstance(x, Cs):
            y = resolve_ch(st, ChS(x.id))
            if isinstance(y, int):
                if chr(y) != v:
                    raise Infeasible()
            else:
                bind_char(st, y.id, ord(v))
        elif isinstance(v, tuple):
            y = st.syms[x.id]
            if y.bind is not None:
                raise Abandon("symbol occurs twice")
            if not v[0]:
                continue
            k = len(v[0].encode())
            s = sub(st, x.id, x.id, lo=max(0, y.lo - k), hi=max(0, y.hi - k) if y.hi < BIG else BIG)
            bind(st, x.id, Rope((v[0], Sy(s))))
        else:
            if st.syms[x.id].bind is not None:
                if st.norm(st.syms[x.id].bind).lit() != v:
                    raise Infeasible()
                continue
            bind(st, x.id, R(v))


def starts_with(st, r, lit):
    """yields (state, rest rope or None)"""
    r = st.norm(r)
    if not lit:
        yield st, r
        return
    ss = sols(st, r.s, lit, False)
    if not ss:
        yield st, None
        return
    if len(ss) == 1 and not ss[0][0]:
        b, i, rem = ss[0]
        yield st, mk_rope(([rem] if rem is not None else []) + list(r.s[i + 1 if rem is not None else i:]))
        return
    neg = B("starts", r, R(lit))
    if any(f == neg and not v for f, v in st.facts):
        yield st, None
        return
    for b, i, rem in ss:
        s = st.clone()
        try:
            apply_binds(s, b)
        except Infeasible:
            continue
        full = s.norm(r)
        # drop the literal again
        got = _drop_lit(full, lit)
        yield s, got
    s = st.clone()
    try:
        exclude(s, r, ss, lit, False)
    except Infeasible:
        return
    yield s, None


def _drop_lit(r, lit):
    segs = list(r.s)
    rest = lit
    while rest:
        if not segs or not isinstance(segs[0], str):
            raise Abandon("prefix did not become literal")
        x = segs[0]
        n = min(len(x), len(rest))
        if x[:n] != rest[:n]:
            raise Abandon("prefix mismatch")
        rest = rest[n:]
        if n == len(x):
            segs.pop(0)
        else:
            segs[0] = x[n:]
    return mk_rope(segs)


def exclude(st, r, ss, lit, whole):
    """assume that none of the ways to match holds"""
    if len(ss) == 1 and len(ss[0][0]) == 1:
        x, v = ss[0][0][0]
        if isinstance(x, Sy) and isinstance(v, str):
            y = st.syms[x.id]
            if v == "":
                assume_nonempty(st, x.id)
            else:
                st.syms[x.id] = y.but(avoid=y.avoid | {v})
            return
        if isinstance(x, Cs):
            a = atom_of(ord(v))
            if is_single(a):
                restrict(st, x.id, ALL & ~(1 << a))
                return
    st.fact(B("req" if whole else "starts", r, R(lit)), False)


def assume_nonempty(st, id):
    y = st.syms[id]
    if y.lo < 1:
        if y.hi < 1:
            raise Infeasible()
        st.syms[id] = y.but(lo=1)


def assume_empty(st, x):
    if isinstance(x, str) or isinstance(x, Cs):
        raise Infeasible()
    if isinstance(x, Ap):
        raise Infeasible() if x.lo > 0 else Abandon("emptiness of an opaque text")
    if isinstance(x, Hm) and any(l == "" for _, l in x.m):
        raise Abandon("emptiness of a filtered text")
    if st.syms[x.id].bind is not None:
        if st.norm(Rope((x,))).s:
            raise Infeasible()
        return
    bind(st, x.id, EMPTY)


def _padded(x):
    return isinstance(x, Ap) and x.t.op == "pad" and isinstance(x.t.a[1], int)


def rope_eq(st, a, b):
    a, b = st.norm(a), st.norm(b)
    if a == b:
        yield st, True
        return
    # strip common ends
    x, y = list(a.s), list(b.s)
    while x and y:
        if x[0] == y[0]:
            x.pop(0)
            y.pop(0)
            continue
        if isinstance(x[0], str) and isinstance(y[0], str):
            n = 0
            m = min(len(x[0]), len(y[0]))
            while n < m and x[0][n] == y[0][n]:
                n += 1
            if n == 0 or n < m:
                yield st, False
                return
            for z in (x, y):
                if len(z[0]) == n:
                    z.pop(0)
                else:
                    z[0] = z[0][n:]
            continue
        break
    while x and y:
        if x[-1] == y[-1]:
            x.pop()
            y.pop()
            continue
        if isinstance(x[-1], str) and isinstance(y[-1], str):
            n = 0
            m = min(len(x[-1]), len(y[-1]))
            while n < m and x[-1][-1 - n] == y[-1][-1 - n]:
                n += 1
            if n == 0 or n < m:
                yield st, False
                return
            for z in (x, y):
                if len(z[-1]) == n:
                    z.pop()
                else:
                    z[-1] = z[-1][:-n]
            continue
        break
    if not x and not y:
        yield st, True
        return
    # numbers of the same width: they are equal when their values are
    for i in (0, -1):
        if x and y and _padded(x[i]) and _padded(y[i]) and x[i].t.a[1] == y[i].t.a[1]:
            l, m = list(x), list(y)
            l.pop(i)
            m.pop(i)
            for s, v in decide(st, B("eq", lin_add(x[i].t.a[0], y[i].t.a[0], -1))):
                if not v:
                    yield s, False
                else:
                    yield from rope_eq(s, mk_rope(l), mk_rope(m))
            return
    ra, rb = mk_rope(x), mk_rope(y)
    # lengths
    lo1, hi1 = sum(st.seg_min(s) for s in ra.s), seg_max(st, ra)
    lo2, hi2 = sum(st.seg_min(s) for s in rb.s), seg_max(st, rb)
    if lo1 > hi2 or lo2 > hi1:
        yield st, False
        return
    if ra.lit() is None and rb.lit() is not None:
        ra, rb = rb, ra
    lit = ra.lit()
    if lit is None:
        # a segment whose characters cannot occur on the other side at all
        for p, q in ((ra, rb), (rb, ra)):
            cs = 0
            for s in q.s:
                cs |= st.seg_cs(s)
            for s in p.s:
                if st.seg_min(s) > 0 and st.seg_cs(s) & cs == 0:
                    yield st, False
                    return
        # first characters
        fa, fb = first_cs(st, ra), first_cs(st, rb)
        if fa is not None and fb is not None and fa & fb == 0:
            yield st, False
            return
        key = B("req", ra, rb)
        alt = B("req", rb, ra)
        for f, v in st.facts:
            if f == key or f == alt:
                yield st, v
                return
        s1 = st.clone()
        s1.fact(key, True)
        yield s1, True
        s2 = st.clone()
        s2.fact(key, False)
        yield s2, False
        return
    if len(rb.s) == 1 and isinstance(rb.s[0], Ap):
        p = ap_eq_lit(st, rb.s[0], lit)
        if p is not None:
            yield from p
            return
    src = uncased(st, rb)
    if src is not None:
        if src[1](lit) != lit:
            yield st, False
        else:
            from nstr import eq_nocase
            yield from eq_nocase(st, src[0], R(lit))
        return
    ss = sols(st, rb.s, lit, True)
    if not ss:
        yield st, False
        return
    for bd, i, rem in ss:
        s = st.clone()
        try:
            apply_binds(s, bd)
        except Infeasible:
            continue
        yield s, True
    s = st.clone()
    try:
        exclude(s, rb, ss, lit, True)
    except Infeasible:
        return
    yield s, False


CASES = [(dict((i, f(chr(i))) for i in range(128) if f(chr(i)) != chr(i)), lambda t, f=f: "".join(f(c) if ord(c) < 128 else c for c in t))
         for f in (str.upper, str.lower)]


def uncased(st, r):
    """(text before its ASCII letters were made upper or lower case, that operation), or None"""
    if not any(isinstance(x, Hm) or isinstance(x, Ap) and x.t.op == "map" for x in r.s):
        return None
    for m, f in CASES:
        out = []
        for x in r.s:
            if isinstance(x, str):
                if f(x) != x:
                    break
                out.append(x)
            elif isinstance(x, Hm):
                cs = st.syms[x.id].cs
                if dict(x.m) != {a: l for a, l in m.items() if (cs >> a) & 1}:
                    break
                out.append(Sy(x.id))
            elif isinstance(x, Ap) and x.t.op == "map" and dict(x.t.a[1]) == m and isinstance(x.t.a[0], Rope):
                out.extend(st.norm(x.t.a[0]).s)
            elif isinstance(x, (Sy, Cs)) and not any((st.syms[x.id].cs >> a) & 1 for a in m):
                out.append(x)
            else:
                break
        else:
            return mk_rope(out), f
    return None


def ap_eq_lit(st, x, lit):
    n = len(lit.encode())
    if n < x.lo or n > x.hi or any(not (x.cs >> atom_of(ord(c))) & 1 for c in lit):
        return [(st, False)]
    if x.t.op == "dec":
        try:
            v = int(lit)
        except ValueError:
            return [(st, False)]
        if str(v) != lit:
            return [(st, False)]
        return decide(st, B("eq", lin_add(x.t.a[0], v, -1)))
    out = []
    for v in (True, False):
        s = st.clone()
        s.fact(B("req", Rope((x,)), R(lit)), v)
        out.append((s, v))
    return out


def first_cs(st, r):
    cs = 0
    for s in r.s:
        if isinstance(s, str):
            return cs | bits(s[0])
        if isinstance(s, Hm):
            d = dict(s.m)
            for a in atoms(st.syms[s.id].cs):
                im = d.get(a)
                if im == "":
                    return None
                cs |= bits(im[0]) if im else 1 << a
        else:
            cs |= st.seg_cs(s)
        if st.seg_min(s) > 0:
            return cs
    return None


def seg_max(st, r):
    n = 0
    for x in r.s:
        if isinstance(x, str):
            n += len(x.encode())
        elif isinstance(x, Ap):
            n += x.hi
        elif isinstance(x, Cs):
            n += max(ATOM_LEN[a] for a in atoms(st.syms[x.id].cs))
        elif isinstance(x, Hm):
            y = st.syms[x.id]
            n += BIG if y.hi >= BIG else y.hi * max([1] + [len(l.encode()) for _, l in x.m])
        else:
            n += st.syms[x.id].hi
    return n


# ---------------------------------------------------------------- scanning
def is_empty(st, r):
    """yields (state, bool)"""
    r = st.norm(r)
    if not r.s:
        yield st, True
        return
    if any(st.seg_min(x) > 0 for x in r.s):
        yield st, False
        return

    def t(s):
        for x in r.s:
            assume_empty(s, x)
        return True

    def n_all(i):
        def f(s):
            for x in r.s[:i]:
                assume_empty(s, x)
            x = r.s[i]
            if isinstance(x, Ap):
                raise Abandon("emptiness of an opaque text")
            assume_nonempty(s, x.id)
            return False
        return f
    yield from branches(st, t, *[n_all(i) for i in range(len(r.s))])


def split_first(st, r, step=1):
    """yields (state, None) for the empty text, (state, (char, rest)) otherwise"""
    r = st.norm(r)
    if not r.s:
        yield st, None
        return
    x = r.s[0]
    rest = r.s[1:]
    if isinstance(x, str):
        yield st, (ord(x[0]), mk_rope([x[1:]] + list(rest)))
        return
    if isinstance(x, Cs):
        yield st, (ChS(x.id), Rope(rest))
        return
    if isinstance(x, Ap):
        raise Abandon("first character of an opaque text %r" % (x,))
    y = st.syms[x.id]

    def empty(s):
        assume_empty(s, x)
        return None

    if y.lo == 0:
        for s, _ in branches(st, empty):
            yield from split_first(s, Rope(rest), step)

    d = dict(x.m) if isinstance(x, Hm) else {}
    groups = {}
    for a in atoms(y.cs):
        groups.setdefault(("m", a) if a in d else "id", 0)
        if a in d:
            groups[("m", a)] = 1 << a
        else:
            groups["id"] |= 1 << a
    for g, cs in groups.items():
        if not cs:
            continue

        def head(s, cs=cs, g=g):
            c = sub(s, x.id, "c", cs=cs, kind="c", step=step)
            t = sub(s, x.id, x.id, lo=0, step=step)
            cl = [ATOM_LEN[a] for a in atoms(cs)]
            s.syms[t] = s.syms[t].but(lo=max(0, y.lo - max(cl)), hi=BIG if y.hi >= BIG else max(0, y.hi - min(cl)))
            bind(s, x.id, Rope((Cs(c), Sy(t))))
            if bin(cs).count("1") == 1 and is_single(cs.bit_length() - 1):
                bind_char(s, c, ord(ATOM_REPR[cs.bit_length() - 1]))
            return s.norm(Rope((x,) + rest))
        for s, full in branches(st, head):
            if g == "id" or full.s and not isinstance(full.s[0], Hm):
                yield from split_first(s, full, step)
            else:
                raise Abandon("substituted character")


def take_while(st, r, cs, acc=()):
    """longest prefix whose characters are all in cs; yields (state, (prefix, rest))"""
    r = st.norm(r)
    segs = list(r.s)
    i = 0
    while i < len(segs):
        x = segs[i]
        if isinstance(x, str):
            n = 0
            while n < len(x) and (cs >> atom_of(ord(x[n]))) & 1:
                n += 1
            if n < len(x):
                yield st, (mk_rope(list(acc) + segs[:i] + [x[:n]]), mk_rope([x[n:]] + segs[i + 1:]))
                return
            i += 1
            continue
        have = st.seg_cs(x)
        if have & ~cs == 0:
            i += 1
            continue
        if isinstance(x, Ap):
            if have & cs == 0 and x.lo > 0:
                yield st, (mk_rope(list(acc) + segs[:i]), mk_rope(segs[i:]))
                return
            raise Abandon("scanning an opaque text %r" % (x,))
        if isinstance(x, Cs):
            if have & cs == 0:
                yield st, (mk_rope(list(acc) + segs[:i]), mk_rope(segs[i:]))
                return

            def ci(s):
                restrict(s, x.id, cs)
                return True

            def co(s):
                restrict(s, x.id, ALL & ~cs)
                return False
            for s, inn in branches(st, ci, co):
                if inn:
                    yield from take_while(s, mk_rope(segs[i:]), cs, tuple(acc) + tuple(segs[:i]))
                else:
                    yield s, (s.norm(mk_rope(list(acc) + segs[:i])), s.norm(mk_rope(segs[i:])))
            return
        y = st.syms[x.id]
        d = dict(x.m) if isinstance(x, Hm) else {}
        inside, stop = 0, 0
        for a in atoms(y.cs):
            im = d.get(a)
            b = bits(im) if im is not None else 1 << a
            if b & ~cs == 0:
                inside |= 1 << a
            else:
                stop |= 1 << a
        # every character is inside
        def alli(s):
            restrict(s, x.id, inside)
            return None
        for s, _ in branches(st, alli):
            yield from take_while(s, mk_rope(segs[i:]), cs, tuple(acc) + tuple(segs[:i]))
        # the first character outside
        if y.hi == 0:
            return
        groups = [stop] if not d else ([1 << a for a in atoms(stop) if a in d] + [sum(1 << a for a in atoms(stop) if a not in d)])
        for g in groups:
            if not g:
                continue

            def split(s, g=g):
                if inside:
                    p = sub(s, x.id, x.id, cs=inside)
                c = sub(s, x.id, "c", cs=g, kind="c")
                q = sub(s, x.id, x.id)
                parts = ([Sy(p)] if inside else []) + [Cs(c), Sy(q)]
                bind(s, x.id, Rope(tuple(parts)))
                if g & (g - 1) == 0 and is_single(g.bit_length() - 1):
                    bind_char(s, c, ord(ATOM_REPR[g.bit_length() - 1]))
                return s.norm(mk_rope(segs[i:]))
            for s, full in branches(st, split):
                yield from take_while(s, full, cs, tuple(acc) + tuple(segs[:i]))
        return
    yield st, (mk_rope(list(acc) + segs), EMPTY)


def may_contain(st, r, pat):
    """can the text contain the literal at all (over-approximation)"""
    # states: number of characters of pat matched so far, as a set
    reach = {0}
    hit = False

    def step(states, choices):
        """choices: list of literal strings or sets of atoms for one position"""
        out = set()
        ok = False
        for im in choices:
            cur = set(states) | {0}
            if isinstance(im, str):
                for c in im:
                    nxt = {0}
                    for q in cur:
                        if pat[q] == c:
                            if q + 1 == len(pat):
                                ok = True
                            else:
                                nxt.add(q + 1)
                    cur = nxt
                out |= cur
            else:
                nxt = {0}
                for q in cur:
                    if (im >> atom_of(ord(pat[q]))) & 1:
                        if q + 1 == len(pat):
                            ok = True
                        else:
                            nxt.add(q + 1)
                out |= nxt
        return out, ok
    for x in st.norm(r).s:
        if isinstance(x, str):
            reach, ok = step(reach, [x])
            hit |= ok
        elif isinstance(x, Cs):
            reach, ok = step(reach, [st.syms[x.id].cs])
            hit |= ok
        else:
            cs = st.seg_cs(x) if isinstance(x, Ap) else st.syms[x.id].cs
            d = dict(x.m) if isinstance(x, Hm) else {}
            ch = [d[a] for a in atoms(cs) if a in d]
            idc = sum(1 << a for a in atoms(cs) if a not in d)
            if idc:
                ch.append(idc)
            start = set(reach)
            # at least one character of the segment
            cur, ok = step(start, ch)
            hit |= ok
            while True:
                nxt, ok = step(cur, ch)
                hit |= ok
                if nxt <= cur:
                    break
                cur |= nxt
            reach = cur | start if st.seg_min(x) == 0 else cur
        if hit:
            return True
    return False


def contains(st, r, pat):
    """does the text contain the literal; yields (state, bool)"""
    r = st.norm(r)
    lit = r.lit()
    if lit is not None:
        yield st, pat in lit
        return
    if pat == "":
        yield st, True
        return
    for x in r.s:
        if isinstance(x, str) and pat in x:
            yield st, True
            return
    if not may_contain(st, r, pat):
        yield st, False
        return
    if len(pat) == 1:
        for s, (pre, rest) in take_while(st, r, ALL & ~bits(pat)):
            yield s, bool(s.norm(rest).s)
        return
    # a single character whose image contains it
    for i, x in enumerate(r.s):
        if isinstance(x, Hm):
            for a, im in x.m:
                if pat in im and (st.syms[x.id].cs >> a) & 1:
                    def yes(s):
                        p = sub(s, x.id, x.id, cs=s.syms[x.id].cs & ~(1 << a))
                        q = sub(s, x.id, x.id)
                        bind(s, x.id, Rope((Sy(p), ATOM_REPR[a], Sy(q))))
                        return True

                    def no(s):
                        restrict(s, x.id, ALL & ~(1 << a))
                        return False
                    for s, v in branches(st, yes, no):
                        if v:
                            yield s, True
                        else:
                            yield from contains(s, r, pat)
                    return
        if isinstance(x, Sy) and all((st.syms[x.id].cs >> atom_of(ord(c))) & 1 for c in pat):
            key = B("contains", Rope((x,)), R(pat))
            known = [v for f, v in st.facts if f == key]
            if True in known:
                yield st, True
                return
            if known:
                continue

            def yes(s):
                p = sub(s, x.id, x.id)
                q = sub(s, x.id, x.id)
                bind(s, x.id, Rope((Sy(p), pat, Sy(q))))
                return True

            def no(s):
                s.fact(key, False)
                return False
            for s, v in branches(st, yes, no):
                if v:
                    yield s, True
                else:
                    yield from contains(s, r, pat)
            return
    # only across segments: depends on which of them are empty
    for x in r.s:
        if isinstance(x, Sy) and st.syms[x.id].lo == 0 and st.syms[x.id].hi > 0:
            def empty(s):
                assume_empty(s, x)

            def some(s):
                assume_nonempty(s, x.id)
            for s, _ in branches(st, empty, some):
                yield from contains(s, r, pat)
            return
    key = B("contains", r, R(pat))
    known = [v for f, v in st.facts if f == key]
    for v in known[:1] or (True, False):
        s = st.clone()
        s.fact(key, v)
        yield s, v


def find(st, r, pat, acc=()):
    """first occurrence of a literal; yields (state, None) or (state, (before, from match))"""
    r = st.norm(r)
    if pat == "":
        yield st, (mk_rope(acc), r)
        return
    if not may_contain(st, r, pat):
        yield st, None
        return
    for s, (pre, rest) in take_while(st, r, ALL & ~bits(pat[0])):
        rest = s.norm(rest)
        if not rest.s:
            yield s, None
            continue
        for s2, after in starts_with(s, rest, pat):
            if after is not None:
                yield s2, (s2.norm(mk_rope(list(acc) + list(pre.s))), s2.norm(rest))
                continue
            rest2 = s2.norm(rest)
            for s3, sp in split_first(s2, rest2):
                if sp is None:
                    yield s3, None
                    continue
                c, tail = sp
                cseg = chr(c) if isinstance(c, int) else Cs(c.id)
                yield from find(s3, tail, pat, tuple(acc) + tuple(pre.s) + (cseg,))


def char_lens(st, z):
    """the classes of characters of the same length a symbolic character can have, if several"""
    if not isinstance(z, Cs):
        return None
    d = {}
    for a in atoms(st.syms[z.id].cs):
        d[ATOM_LEN[a]] = d.get(ATOM_LEN[a], 0) | 1 << a
    return list(d.values()) if len(d) > 1 else None


def cut(st, r, n):
    """split at byte position n; yields (state, (left, right)), or (state, None) when n is not
    a character boundary of the text"""
    r = st.norm(r)
    n = st.nint(n)
    at = 0
    segs = r.s
    for i in range(len(segs) + 1):
        d = st.nint(lin_add(n, at, -1))
        if d == 0:
            yield st, (mk_rope(segs[:i]), mk_rope(segs[i:]))
            return
        if i == len(segs):
            break
        x = segs[i]
        ln = st.seg_len(x)
        if isinstance(d, int) and d < 0:
            yield st, None
            return
        if isinstance(d, int) and isinstance(ln, int):
            if d >= ln:
                at = lin_add(at, ln)
                continue
        else:
            # is the position at or after the end of this segment
            le = B("le", lin_add(ln, d, -1))
            rs = list(decide(st, le))
            if len(rs) == 1 and rs[0][0] is st:
                if rs[0][1]:
                    at = lin_add(at, ln)
                    continue
            else:
                for s, v in rs:
                    yield from cut(s, r, n)
                return
        # strictly inside the segment (or before it)
        if not isinstance(d, int):
            lo, hi = st.irange(d)
            for s, v in decide(st, B("le", d)):
                if v:
                    for s2, e in decide(s, B("eq", d)):
                        if e:
                            yield s2, (s2.norm(mk_rope(segs[:i])), s2.norm(mk_rope(segs[i:])))
                        else:
                            yield s2, None
                elif isinstance(x, (Sy, Hm)) and any(char_lens(st, z) for z in segs[:i]):
                    # first settle how long the characters before the position are
                    z = next(z for z in segs[:i] if char_lens(st, z))
                    for s2, _ in branches(s, *[(lambda s, cs=cs: restrict(s, z.id, cs)) for cs in char_lens(s, z)]):
                        yield from cut(s2, s2.norm(r), s2.nint(n))
                elif hi <= 6 or isinstance(ln, int) and ln <= 26:
                    top = min(hi, ln - 1) if isinstance(ln, int) else hi
                    for k in range(max(1, lo), top + 1):
                        def pick(s, k=k):
                            assume_eq0(s, lin_add(d, k, -1))
                            return None
                        for s2, _ in branches(s, pick):
                            left = s2.norm(mk_rope(segs[:i]))
                            for s3, c in cut(s2, s2.norm(mk_rope(segs[i:])), k):
                                yield s3, None if c is None else (cat(s3.norm(left), c[0]), c[1])
                elif isinstance(x, Sy) and st.syms[x.id].cs & NONASCII == 0:
                    def at(s):
                        y = s.syms[x.id]
                        l, h = s.irange(d)
                        p = sub(s, x.id, x.id, lo=max(0, l), hi=min(y.hi, h), step=0)
                        q = sub(s, x.id, x.id, lo=0, hi=y.hi, step=0)
                        bind(s, x.id, Rope((Sy(p), Sy(q))))
                        assume_eq0(s, lin_add(s.rlen(Rope((Sy(p),))), d, -1))
                        return Sy(p), Sy(q)
                    for s2, (p, q) in branches(s, at):
                        yield s2, (s2.norm(mk_rope(list(segs[:i]) + [p])), s2.norm(mk_rope([q] + list(segs[i + 1:]))))
                else:
                    raise Abandon("position %r inside a segment of %r" % (d, r))
            return
        if isinstance(x, str):
            b = x.encode()
            try:
                l, rr = b[:d].decode(), b[d:].decode()
            except UnicodeDecodeError:
                yield st, None
                return
            yield st, (mk_rope(list(segs[:i]) + [l]), mk_rope([rr] + list(segs[i + 1:])))
            return
        if isinstance(x, Cs):
            yield st, None
            return
        if isinstance(x, Hm):
            y = st.syms[x.id]
            m = dict(x.m)

            def img_len(a):
                return len(m[a].encode()) if a in m else ATOM_LEN[a]

            def image_is(s, p, k):
                if k == 0:
                    assume_empty(s, Sy(p))
                    return
                assume_eq0(s, lin_add(s.rlen(Rope((Hm(p, x.m),))), k, -1))

            def clean(s):
                p, q = sub(s, x.id, x.id), sub(s, x.id, x.id)
                bind(s, x.id, Rope((Sy(p), Sy(q))))
                image_is(s, p, d)
                return True
            fs = [clean]
            groups = {}
            for a in atoms(y.cs):
                if img_len(a) > 1:
                    groups.setdefault((img_len(a), m.get(a)), []).append(a)
            for (w, lit), ats in groups.items():
                cs = sum(1 << a for a in ats)
                for off in range(1, w):
                    if d - off < 0:
                        continue

                    def inside(s, w=w, off=off, cs=cs, ats=ats, lit=lit):
                        p, q = sub(s, x.id, x.id), sub(s, x.id, x.id)
                        if lit is not None and len(ats) == 1 and is_single(ats[0]):
                            mid = ATOM_REPR[ats[0]]
                        elif lit is not None:
                            raise Abandon("substitution of a class of characters")
                        else:
                            mid = Cs(sub(s, x.id, "c", cs=cs, kind="c"))
                        bind(s, x.id, mk_rope((Sy(p), mid, Sy(q))))
                        image_is(s, p, d - off)
                        return lit is not None
                    fs.append(inside)
            for s, good in branches(st, *fs):
                if good:
                    yield from cut(s, r, n)
                else:
                    yield s, None
            return
        if isinstance(x, Ap):
            if x.cs & NONASCII:
                raise Abandon("byte position inside an opaque text")
            a = Ap(T("slice", x.t, 0, d), x.cs, d, d)
            b = Ap(T("slice", x.t, d, None), x.cs, max(0, x.lo - d), x.hi - d)
            yield st, (mk_rope(list(segs[:i]) + [a]), mk_rope([b] + list(segs[i + 1:])))
            return
        # inside a text symbol of at least d bytes
        y = st.syms[x.id]

        def at_boundary(s):
            p = sub(s, x.id, x.id, lo=d, hi=d, step=0)
            q = sub(s, x.id, x.id, lo=max(0, y.lo - d), hi=BIG if y.hi >= BIG else y.hi - d, step=0)
            bind(s, x.id, Rope((Sy(p), Sy(q))))
            return True
        fs = [at_boundary]
        for w in (2, 3, 4):
            cs = sum(1 << a for a in atoms(y.cs) if ATOM_LEN[a] == w)
            if not cs:
                continue
            for off in range(1, w):
                if d - off < 0:
                    continue

                def straddle(s, w=w, off=off, cs=cs):
                    p = sub(s, x.id, x.id, lo=d - off, hi=d - off, step=0)
                    c = sub(s, x.id, "c", cs=cs, kind="c", step=0)
                    k = d - off + w
                    q = sub(s, x.id, x.id, lo=max(0, y.lo - k), hi=BIG if y.hi >= BIG else max(0, y.hi - k), step=0)
                    bind(s, x.id, Rope(((Sy(p),) if d - off else ()) + (Cs(c), Sy(q))))
                    return False
                fs.append(straddle)
        for s, ok in branches(st, *fs):
            if ok:
                yield from cut(s, r, n)
            else:
                yield s, None
        return
    # beyond the end
    yield st, None
