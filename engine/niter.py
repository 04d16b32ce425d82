"""Models of iterators. An iterator is a native object; advancing it gives a new object."""
from natives import *
from natives import P, TR
import ropes, loops
from ropes import decide, Infeasible, resolve_ch
from nstr import pat_find, pat_rfind, split_last
import itertools

END = object()


def ref_elem(ip, st, v):
    """reference to an element"""
    return v if is_textual(v) and not isinstance(v, Rope) else Ref(v)


def str_elems(ip, t):
    return False


# ------------------------------------------------------------------ making iterators
def is_iter(v):
    return isinstance(v, N) and v.k in ITERS


def into_it(ip, st, v, ctx, t=None):
    """yields (state, iterator)"""
    if isinstance(v, N) and v.k in ITERS:
        yield st, v
        return
    if isinstance(v, Bx):
        yield from into_it(ip, st, v.v, ctx)
        return
    if isinstance(v, N) and v.k == "dyn":
        yield from into_it(ip, st, v.f[0], ctx, v.f[1])
        return
    if isinstance(v, Seq):
        yield st, N("list", v.e)
        return
    if isinstance(v, MapV):
        for s, e in map_order(ip, st, v, ctx):
            yield s, N("list", tuple(tup(k, x) for k, x in e))
        return
    if isinstance(v, Ref):
        x = v.v
        if isinstance(x, Ref):
            yield from into_it(ip, st, x, ctx)
            return
        if isinstance(x, Seq):
            yield st, N("list", tuple(Ref(e) for e in x.e))
            return
        if isinstance(x, MapV):
            for s, e in map_order(ip, st, x, ctx):
                yield s, N("list", tuple(tup(Ref(k), Ref(y)) for k, y in e))
            return
        if isinstance(x, A) and x.ty is None and x.v in (0, 1) and len(x.f) == x.v:
            yield st, N("list", tuple(Ref(e) for e in x.f))
            return
        if isinstance(x, N):
            yield from into_it(ip, st, x, ctx)
            return
    if isinstance(v, Mut):
        m = mutcell(ip, st, v)
        x = ip.read_path(st, m.c, m.p)
        if is_iter(x):
            yield st, N("byref", m)
            return
        if isinstance(x, Seq):
            yield st, N("list", tuple(Mut(m.c, tuple(m.p) + (("i", i),)) for i in range(len(x.e))))
            return
        if isinstance(x, MapV):
            for s, e in map_order(ip, st, x, ctx):
                ip.write_path(s, m.c, m.p, MapV(x.k, e))
                yield s, N("list", tuple(tup(Ref(k), Mut(m.c, tuple(m.p) + (("mapv", i),))) for i, (k, _) in enumerate(e)))
            return
        if isinstance(x, A) and x.ty is not None and ip.p.impls.get((x.ty, "std::iter::Iterator", "next")) is not None:
            yield st, N("byref", m)
            return
        if isinstance(x, A) and x.ty is not None and ip.p.types[x.ty].get("path", "").startswith("std::ops::Range"):
            yield st, N("byrange", m)
            return
    if isinstance(v, A):
        if v.ty is not None:
            p = ip.p.types[v.ty].get("path", "")
            if p == "std::ops::Range":
                yield st, N("range", v.f[0], v.f[1], False)
                return
            if p == "std::ops::RangeInclusive":
                yield st, N("range", v.f[0], v.f[1], True)
                return
            if p == "std::ops::RangeFrom":
                yield st, N("range", v.f[0], None, False)
                return
            if p in ("std::option::Option",):
                yield st, N("list", tuple(v.f) if v.v == 1 else ())
                return
            if p == "std::result::Result":
                yield st, N("list", tuple(v.f) if v.v == 0 else ())
                return
            i = ip.p.impls.get((v.ty, "std::iter::Iterator", "next"))
            if i is not None:
                yield st, N("loc", v, i)
                return
            i = ip.p.impls.get((v.ty, "std::iter::IntoIterator", "into_iter"))
            if i is not None:
                for s, w in ip.call(st, i, [v], ctx):
                    if isinstance(w, Panic):
                        yield s, w
                    else:
                        yield from into_it(ip, s, w, ctx)
                return
        elif t is not None and tyk(ip, t) in ("std::option::Option",) or t is None and len(v.f) <= 1:
            yield st, N("list", tuple(v.f) if v.v == 1 else ())
            return
    raise Abandon("iteration over %r" % (v,))


def map_order(ip, st, m, ctx):
    """entries in iteration order; yields (state, tuple of entries)"""
    n = len(m.e)
    if n <= 1:
        yield st, m.e
        return
    if m.k == "h":
        if n > 4:
            # too many orders: three of them stand for all
            for p in (m.e, m.e[::-1], m.e[1::2] + m.e[::2]):
                yield st.clone(), tuple(p)
            return
        for p in itertools.permutations(m.e):
            yield st.clone(), tuple(p)
        return
    yield from sort_entries(ip, st, m.e, lambda s, a, b: cmp_values(ip, s, a[0], b[0], None, ctx))


def sort_entries(ip, st, es, cmp, done=()):
    """stable insertion sort under an order that may have to be decided"""
    if not es:
        yield st, done
        return

    def place(s, x, d, k):
        # after all that are <= x, from the end
        if k == 0:
            yield s, (x,) + d
            return
        for s2, c in cmp(s, d[k - 1], x):
            if isinstance(c, Panic):
                yield s2, c
            elif c <= 0:
                yield s2, d[:k] + (x,) + d[k:]
            else:
                yield from place(s2, x, d, k - 1)
    for s, d in place(st, es[0], done, len(done)):
        if isinstance(d, Panic):
            yield s, d
        else:
            yield from sort_entries(ip, s, es[1:], cmp, d)


ITERS = {"list", "chars", "charidx", "bytes", "split", "lines", "map", "filter", "filter_map", "flat", "chain", "enum", "zip",
         "peek", "take", "skip", "tw", "sw", "mapw", "cloned", "rev", "range", "fromfn", "byref", "loc", "succ", "inspect",
         "repeat", "scan", "stepby", "byrange", "cycle"}


# ------------------------------------------------------------------ advancing
def nxt(ip, st, it, ctx):
    """yields (state, iterator afterwards, item / END / Panic)"""
    k, f = it.k, it.f
    if k == "list":
        if f[0]:
            yield st, N("list", f[0][1:]), f[0][0]
        else:
            yield st, it, END
    elif k == "chars":
        for s, sp in ropes.split_first(st, f[0]):
            if sp is None:
                yield s, N("chars", EMPTY), END
            else:
                yield s, N("chars", sp[1]), sp[0]
    elif k == "charidx":
        for s, sp in ropes.split_first(st, f[0]):
            if sp is None:
                yield s, N("charidx", EMPTY, f[1]), END
            else:
                n = s.nint(lin_add(f[1], s.rlen(ch_rope(s, sp[0]))))
                yield s, N("charidx", sp[1], n), tup(s.nint(f[1]), sp[0])
    elif k == "bytes":
        for s, sp in ropes.split_first(st, f[0]):
            if sp is None:
                yield s, N("bytes", EMPTY), END
                continue
            c = resolve_ch(s, sp[0])
            if isinstance(c, int):
                bs = chr(c).encode()
                if len(bs) == 1:
                    yield s, N("bytes", sp[1]), bs[0]
                else:
                    raise Abandon("bytes of a character outside ASCII")
            elif s.syms[c.id].cs & NONASCII:
                raise Abandon("bytes of a character outside ASCII")
            else:
                yield s, N("bytes", sp[1]), c
    elif k == "cycle":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is not END:
                yield s, N("cycle", i2, f[1]), x
            else:
                for s2, i3, y in nxt(ip, s, f[1], ctx):
                    yield s2, N("cycle", i3, f[1]), y
    elif k == "split":
        yield from nxt_split(ip, st, it, ctx)
    elif k == "lines":
        r = st.norm(f[0])
        for s, e in ropes.is_empty(st, r):
            if e:
                yield s, it, END
                continue
            for s2, g in pat_find(ip, s, s.norm(r), ("lit", "\n")):
                if g is None:
                    yield s2, N("lines", EMPTY), s2.norm(r)
                else:
                    from nstr import pat_ends
                    for s3, h in pat_ends(ip, s2, g[0], ("lit", "\r")):
                        yield s3, N("lines", s3.norm(g[2])), s3.norm(g[0]) if h is None else h
    elif k == "map":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("map", i2, f[1]), x
                continue
            for s2, v, g in ip.call_mut(s, f[1], [x], ctx):
                yield s2, N("map", i2, g), v
    elif k in ("filter", "filter_map", "tw", "sw", "mapw"):
        yield from nxt_filter(ip, st, it, ctx)
    elif k == "inspect":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("inspect", i2, f[1]), x
                continue
            for s2, v, g in ip.call_mut(s, f[1], [Ref(x)], ctx):
                yield s2, N("inspect", i2, g), x if not isinstance(v, Panic) else v
    elif k == "flat":
        # outer, current, function, back
        outer, cur, fn, back = f
        if cur is not None:
            for s, c2, x in nxt(ip, st, cur, ctx):
                if x is END:
                    yield from nxt(ip, s, N("flat", outer, None, fn, back), ctx)
                else:
                    yield s, N("flat", outer, c2, fn, back), x
            return
        for s, o2, x in nxt(ip, st, outer, ctx):
            if x is END:
                if back is not None:
                    for s2, b2, y in nxt(ip, s, back, ctx):
                        yield s2, N("flat", o2, None, fn, b2), y
                else:
                    yield s, N("flat", o2, None, fn, back), END
            elif isinstance(x, Panic):
                yield s, it, x
            elif fn is None:
                for s2, c in into_it(ip, s, x, ctx):
                    yield from nxt(ip, s2, N("flat", o2, c, fn, back), ctx)
            else:
                for s2, v, g in ip.call_mut(s, fn, [x], ctx):
                    if isinstance(v, Panic):
                        yield s2, it, v
                        continue
                    for s3, c in into_it(ip, s2, v, ctx):
                        yield from nxt(ip, s3, N("flat", o2, c, g, back), ctx)
    elif k == "chain":
        a, b = f
        if a is None:
            for s, b2, x in nxt(ip, st, b, ctx):
                yield s, N("chain", None, b2), x
            return
        for s, a2, x in nxt(ip, st, a, ctx):
            if x is END:
                yield from nxt(ip, s, N("chain", None, b), ctx)
            else:
                yield s, N("chain", a2, b), x
    elif k == "enum":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("enum", i2, f[1]), x
            else:
                yield s, N("enum", i2, f[1] + 1), tup(f[1], x)
    elif k == "zip":
        for s, a2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("zip", a2, f[1]), x
                continue
            for s2, b2, y in nxt(ip, s, f[1], ctx):
                yield s2, N("zip", a2, b2), y if y is END or isinstance(y, Panic) else tup(x, y)
    elif k == "peek":
        if f[1] is not None:
            yield st, N("peek", f[0], None), f[1][0]
            return
        for s, i2, x in nxt(ip, st, f[0], ctx):
            yield s, N("peek", i2, None), x
    elif k == "take":
        if f[1] <= 0:
            yield st, it, END
            return
        for s, i2, x in nxt(ip, st, f[0], ctx):
            yield s, N("take", i2, f[1] - 1), x
    elif k == "skip":
        if f[1] <= 0:
            for s, i2, x in nxt(ip, st, f[0], ctx):
                yield s, N("skip", i2, 0), x
            return
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("skip", i2, 0), x
            else:
                yield from nxt(ip, s, N("skip", i2, f[1] - 1), ctx)
    elif k == "stepby":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("stepby", i2, f[1]), x
            else:
                yield s, N("stepby", N("skip", i2, f[1] - 1), f[1]), x
    elif k == "cloned":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("cloned", i2, f[1]), x
            else:
                for s2, v in clone_value(ip, s, val1(ip, s, x), f[1], ctx):
                    yield s2, N("cloned", i2, f[1]), v
    elif k == "rev":
        for s, i2, x in nxt_back(ip, st, f[0], ctx):
            yield s, N("rev", i2), x
    elif k == "range":
        lo, hi, inc = f
        if hi is None:
            yield st, N("range", lin_add(lo, 1), None, False), lo
            return
        if isinstance(lo, ChS) or isinstance(hi, ChS):
            raise Abandon("range of characters")
        d = lin_add(lo, hi, -1)
        for s, v in decide(st, B("le", d if inc else lin_add(d, 1))):
            if v:
                yield s, N("range", lin_add(lo, 1), hi, inc), s.nint(lo)
            else:
                yield s, it, END
    elif k == "fromfn":
        for s, v, g in ip.call_mut(st, f[0], [], ctx):
            if isinstance(v, Panic):
                yield s, it, v
            else:
                yield s, N("fromfn", g), v.f[0] if v.v == 1 else END
    elif k == "succ":
        if f[0] is None:
            yield st, it, END
            return
        for s, v, g in ip.call_mut(st, f[1], [Ref(f[0][0])], ctx):
            if isinstance(v, Panic):
                yield s, it, v
            else:
                yield s, N("succ", (v.f[0],) if v.v == 1 else None, g), f[0][0]
    elif k == "repeat":
        yield st, it, f[0]
    elif k == "scan":
        c = f[1]
        for s, i2, x in nxt(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("scan", i2, c, f[2]), x
                continue
            for s2, v, g in ip.call_mut(s, f[2], [Mut(c, ()), x], ctx):
                if isinstance(v, Panic):
                    yield s2, it, v
                else:
                    yield s2, N("scan", i2, c, g), v.f[0] if v.v == 1 else END
    elif k == "byref":
        m = f[0]
        inner = ip.read_path(st, m.c, m.p)
        if isinstance(inner, A):
            i = ip.p.impls.get((inner.ty, "std::iter::Iterator", "next"))
            for s, v in ip.call(st, i, [m], ctx):
                yield s, it, v if isinstance(v, Panic) else (v.f[0] if v.v == 1 else END)
            return
        for s, i2, x in nxt(ip, st, inner, ctx):
            ip.write_path(s, m.c, m.p, i2)
            yield s, it, x
    elif k == "byrange":
        m = f[0]
        v = ip.read_path(st, m.c, m.p)
        for s0, i0 in into_it(ip, st, v, ctx):
            for s, i2, x in nxt(ip, s0, i0, ctx):
                ip.write_path(s, m.c, m.p, A(v.ty, v.v, (i2.f[0],) + tuple(v.f[1:])))
                yield s, it, x
    elif k == "loc":
        ip.nframe += 1
        c = (ip.nframe, "it")
        st.cells[c] = f[0]
        for s, v in ip.call(st, f[1], [Mut(c, ())], ctx):
            n = s.cells.pop(c, None)
            yield s, N("loc", n, f[1]), v if isinstance(v, Panic) else (v.f[0] if v.v == 1 else END)
    else:
        raise Abandon("next of %s" % k)


def nxt_filter(ip, st, it, ctx):
    k, f = it.k, it.f
    if k == "tw" and f[2]:
        yield st, it, END
        return
    work = [(st, f[0], f[1], f[2] if len(f) > 2 else None)]
    n = 0
    while work:
        s0, inner, fn, flag = work.pop()
        n += 1
        if n > 5000:
            raise Abandon("filter")
        for s, i2, x in nxt(ip, s0, inner, ctx):
            if x is END or isinstance(x, Panic):
                yield s, N(k, i2, fn, flag), x
                continue
            if k == "sw" and flag:
                yield s, N(k, i2, fn, True), x
                continue
            for s2, v, g in ip.call_mut(s, fn, [x] if k in ("filter_map", "mapw") else [Ref(x) if not isinstance(x, Rope) else x], ctx):
                if isinstance(v, Panic):
                    yield s2, it, v
                elif k == "filter_map":
                    if v.v == 1:
                        yield s2, N(k, i2, g), v.f[0]
                    else:
                        work.append((s2, i2, g, None))
                elif k == "mapw":
                    yield s2, N(k, i2, g), v.f[0] if v.v == 1 else END
                else:
                    for s3, t in decide(s2, v):
                        if k == "filter":
                            if t:
                                yield s3, N(k, i2, g), x
                            else:
                                work.append((s3, i2, g, None))
                        elif k == "tw":
                            yield s3, N(k, i2, g, not t), x if t else END
                        else:
                            if t:
                                work.append((s3, i2, g, False))
                            else:
                                yield s3, N(k, i2, g, True), x


def nxt_split(ip, st, it, ctx):
    r, p, mode, limit, off = it.f
    if r is None:
        yield st, it, END
        return
    r = st.norm(r)
    if mode in ("split_inclusive", "split_terminator"):
        for s, e in ropes.is_empty(st, r):
            if e:
                yield s, N("split", None, p, mode, limit, off), END
                continue
            for s2, g in pat_find(ip, s, s.norm(r), p):
                if g is None:
                    yield s2, N("split", None, p, mode, limit, off), s2.norm(r)
                else:
                    yield s2, N("split", g[2], p, mode, limit, off), cat(g[0], g[1]) if mode == "split_inclusive" else g[0]
        return
    if mode in ("matches", "match_indices"):
        for s2, g in pat_find(ip, st, r, p):
            if g is None:
                yield s2, N("split", None, p, mode, limit, off), END
            else:
                at = s2.nint(lin_add(off, s2.rlen(g[0])))
                o2 = s2.nint(lin_add(at, s2.rlen(g[1])))
                yield s2, N("split", g[2], p, mode, limit, o2), g[1] if mode == "matches" else tup(at, g[1])
        return
    if mode == "rsplit":
        for s2, g in pat_rfind(ip, st, r, p):
            if g is None:
                yield s2, N("split", None, p, mode, limit, off), s2.norm(r)
            else:
                yield s2, N("split", g[0], p, mode, limit, off), g[2]
        return
    if mode == "words":
        for s, (pre, rest) in ropes.take_while(st, r, p[1]):
            for s1, e in ropes.is_empty(s, rest):
                if e:
                    yield s1, N("split", None, p, mode, limit, off), END
                    continue
                for s2, (w, rest2) in ropes.take_while(s1, s1.norm(rest), ALL & ~p[1]):
                    yield s2, N("split", rest2, p, mode, limit, off), w
        return
    if limit is not None and limit <= 1:
        yield st, N("split", None, p, mode, 0, off), END if limit == 0 else r
        return
    for s2, g in pat_find(ip, st, r, p):
        if g is None:
            yield s2, N("split", None, p, mode, limit, off), s2.norm(r)
        else:
            yield s2, N("split", g[2], p, mode, None if limit is None else limit - 1, off), g[0]


def nxt_back(ip, st, it, ctx):
    k, f = it.k, it.f
    if k == "list":
        if f[0]:
            yield st, N("list", f[0][:-1]), f[0][-1]
        else:
            yield st, it, END
    elif k == "chars":
        for s, sp in split_last(st, f[0]):
            if sp is None:
                yield s, N("chars", EMPTY), END
            else:
                yield s, N("chars", sp[0]), sp[1]
    elif k == "charidx":
        for s, sp in split_last(st, f[0]):
            if sp is None:
                yield s, N("charidx", EMPTY, f[1]), END
            else:
                yield s, N("charidx", sp[0], f[1]), tup(s.nint(lin_add(f[1], s.rlen(sp[0]))), sp[1])
    elif k == "map":
        for s, i2, x in nxt_back(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("map", i2, f[1]), x
                continue
            for s2, v, g in ip.call_mut(s, f[1], [x], ctx):
                yield s2, N("map", i2, g), v
    elif k == "rev":
        for s, i2, x in nxt(ip, st, f[0], ctx):
            yield s, N("rev", i2), x
    elif k == "range":
        lo, hi, inc = f
        d = lin_add(lo, hi, -1)
        for s, v in decide(st, B("le", d if inc else lin_add(d, 1))):
            if v:
                h = hi if inc else lin_add(hi, -1)
                yield s, N("range", lo, h if not inc else lin_add(hi, -1), inc), s.nint(h)
            else:
                yield s, it, END
    elif k == "cloned":
        for s, i2, x in nxt_back(ip, st, f[0], ctx):
            if x is END or isinstance(x, Panic):
                yield s, N("cloned", i2, f[1]), x
            else:
                for s2, v in clone_value(ip, s, val1(ip, s, x), f[1], ctx):
                    yield s2, N("cloned", i2, f[1]), v
    elif k == "byref":
        m = f[0]
        for s, i2, x in nxt_back(ip, st, ip.read_path(st, m.c, m.p), ctx):
            ip.write_path(s, m.c, m.p, i2)
            yield s, it, x
    elif k == "split" and f[2] in ("split", "rsplit") and f[3] is None:
        if f[0] is None:
            yield st, it, END
            return
        fn = pat_rfind if f[2] == "split" else pat_find
        for s, g in fn(ip, st, f[0], f[1]):
            if g is None:
                yield s, N("split", None, *f[1:]), s.norm(f[0])
            else:
                yield s, N("split", g[0] if f[2] == "split" else g[2], *f[1:]), g[2] if f[2] == "split" else g[0]
    else:
        # everything from the front, then from the back
        for s, xs in gather(ip, st, it, ctx):
            if isinstance(xs, Panic):
                yield s, it, xs
            elif xs:
                yield s, N("list", xs[:-1]), xs[-1]
            else:
                yield s, N("list", ()), END


MAXITEMS = 400


def gather(ip, st, it, ctx, limit=MAXITEMS):
    """yields (state, tuple of all items)"""
    work = [(st, it, ())]
    while work:
        s0, i0, acc = work.pop()
        for s, i2, x in nxt(ip, s0, i0, ctx):
            if x is END:
                yield s, acc
            elif isinstance(x, Panic):
                yield s, x
            else:
                if len(acc) > limit:
                    raise Abandon("iteration over an unbounded number of items")
                work.append((s, i2, acc + (x,)))


# ------------------------------------------------------------------ constructors and adaptors
IT = "std::iter::Iterator::"


def mk(ip, st, v, ctx):
    yield from into_it(ip, st, v, ctx)


@trait("std::iter::IntoIterator::into_iter")
@sel
def t_into_iter(ip, I, s, k, base):
    if is_local(ip, s) and ip.p.impls.get((s, "std::iter::IntoIterator", "into_iter")) is not None:
        return None
    if I["krate"] in ("icalendar", "icalharness"):
        return None

    def f(ip, st, a, I, ctx):
        v = a[0]
        if isinstance(v, A) and v.ty is not None and is_local(ip, v.ty):
            yield st, v          # an iterator of its own
            return
        if isinstance(v, A) and v.ty is not None and ip.p.types[v.ty].get("path", "").startswith("std::ops::Range"):
            yield from into_it(ip, st, v, ctx)
            return
        yield from into_it(ip, st, v, ctx, s)
    return f


@path("std::slice::<impl [T]>::iter", "std::slice::<impl [T]>::iter_mut", "std::option::Option::iter", "std::option::Option::iter_mut",
      "std::collections::BTreeMap::iter", "std::collections::HashMap::iter", "std::collections::BTreeMap::iter_mut",
      "std::collections::HashMap::iter_mut", "std::vec::Vec::iter", "std::collections::BTreeSet::iter", "std::collections::HashSet::iter")
def it_iter(ip, st, a, I, ctx):
    v = a[0]
    if I["path"].endswith("_mut") or I["path"].endswith("_mut::<>"):
        yield from into_it(ip, st, v, ctx)
        return
    x = val(ip, st, v)
    if isinstance(x, Bytes):
        yield st, N("bytes", x.r)
        return
    if isinstance(x, A):
        yield st, N("list", tuple(Ref(e) for e in x.f) if x.v == 1 else ())
        return
    if isinstance(x, MapV) and "Set" in I["path"]:
        for s, e in map_order(ip, st, x, ctx):
            yield s, N("list", tuple(Ref(k) for k, _ in e))
        return
    yield from into_it(ip, st, Ref(x), ctx)


@path("std::iter::once", "std::iter::empty", "std::iter::repeat", "std::iter::from_fn", "std::iter::successors", "std::iter::zip",
      "std::iter::repeat_n")
def it_src(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("::")[-1]
    if n == "once":
        yield st, N("list", (a[0],))
    elif n == "empty":
        yield st, N("list", ())
    elif n == "repeat":
        yield st, N("repeat", a[0])
    elif n == "repeat_n":
        yield st, N("list", (a[0],) * st.nint(a[1]))
    elif n == "from_fn":
        yield st, N("fromfn", a[0])
    elif n == "successors":
        yield st, N("succ", (a[0].f[0],) if a[0].v == 1 else None, a[1])
    else:
        for s, x in into_it(ip, st, a[0], ctx):
            for s2, y in into_it(ip, s, a[1], ctx):
                yield s2, N("zip", x, y)


def adaptor(name, build):
    def f(ip, st, a, I, ctx):
        for s, it in into_it(ip, st, a[0], ctx):
            if isinstance(it, Panic):
                yield s, it
                continue
            r = build(ip, s, it, a, I, ctx)
            if hasattr(r, "__next__"):
                yield from r
            else:
                yield s, r
    TR[IT + name] = f


def elem_of_ref(ip, I):
    """element type of cloned()/copied(), if known"""
    for x in I["args"][1:]:
        if isinstance(x, int):
            return x
    return None


adaptor("map", lambda ip, s, it, a, I, c: N("map", it, a[1]))
adaptor("filter", lambda ip, s, it, a, I, c: N("filter", it, a[1], None))
adaptor("filter_map", lambda ip, s, it, a, I, c: N("filter_map", it, a[1]))
adaptor("flat_map", lambda ip, s, it, a, I, c: N("flat", it, None, a[1], None))
adaptor("flatten", lambda ip, s, it, a, I, c: N("flat", it, None, None, None))
adaptor("enumerate", lambda ip, s, it, a, I, c: N("enum", it, 0))
adaptor("peekable", lambda ip, s, it, a, I, c: N("peek", it, None))
adaptor("fuse", lambda ip, s, it, a, I, c: it)
adaptor("by_ref", lambda ip, s, it, a, I, c: a[0])
adaptor("take_while", lambda ip, s, it, a, I, c: N("tw", it, a[1], False))
adaptor("skip_while", lambda ip, s, it, a, I, c: N("sw", it, a[1], False))
adaptor("map_while", lambda ip, s, it, a, I, c: N("mapw", it, a[1]))
adaptor("inspect", lambda ip, s, it, a, I, c: N("inspect", it, a[1]))
adaptor("cloned", lambda ip, s, it, a, I, c: N("cloned", it, elem_of_ref(ip, I)))
adaptor("copied", lambda ip, s, it, a, I, c: N("cloned", it, elem_of_ref(ip, I)))
adaptor("rev", lambda ip, s, it, a, I, c: N("rev", it))
adaptor("into_iter", lambda ip, s, it, a, I, c: it)


def _num(s, v):
    v = s.nint(v)
    if not isinstance(v, int):
        raise Abandon("count that is not known")
    return v


adaptor("take", lambda ip, s, it, a, I, c: N("take", it, _num(s, a[1])))
adaptor("skip", lambda ip, s, it, a, I, c: N("skip", it, _num(s, a[1])))
adaptor("step_by", lambda ip, s, it, a, I, c: N("stepby", it, _num(s, a[1])))


def _chain(ip, s, it, a, I, ctx):
    for s2, b in into_it(ip, s, a[1], ctx):
        yield s2, N("chain", it, b)


def _zip(ip, s, it, a, I, ctx):
    for s2, b in into_it(ip, s, a[1], ctx):
        yield s2, N("zip", it, b)


def _scan(ip, s, it, a, I, ctx):
    ip.nframe += 1
    c = (ip.nframe, "scan")
    s.cells[c] = a[1]
    return N("scan", it, c, a[2])


adaptor("chain", _chain)
adaptor("zip", _zip)
adaptor("scan", _scan)


# ------------------------------------------------------------------ consumers
def with_it(ip, st, v, ctx):
    """yields (state, iterator, write back function)"""
    if isinstance(v, Mut):
        m = mutcell(ip, st, v)
        x = ip.read_path(st, m.c, m.p)
        if is_iter(x):
            yield st, x, (lambda s, i: ip.write_path(s, m.c, m.p, i))
            return
        if isinstance(x, A) and x.ty is not None and ip.p.types[x.ty].get("path", "").startswith("std::ops::Range"):
            for s, it in into_it(ip, st, x, ctx):
                yield s, it, (lambda s2, i: ip.write_path(s2, m.c, m.p, i))
            return
        for s, it in into_it(ip, st, m, ctx):
            yield s, it, (lambda s2, i: None)
        return
    for s, it in into_it(ip, st, v, ctx):
        yield s, it, (lambda s2, i: None)


@trait(IT + "next")
@sel
def t_next(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness"):
        return None

    def f(ip, st, a, I, ctx):
        for s0, it, put in with_it(ip, st, a[0], ctx):
            for s, i2, x in nxt(ip, s0, it, ctx):
                put(s, i2)
                yield s, x if isinstance(x, Panic) else (NONE if x is END else some(x))
    return f


@trait("std::iter::DoubleEndedIterator::next_back")
@sel
def t_next_back(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness"):
        return None

    def f(ip, st, a, I, ctx):
        for s0, it, put in with_it(ip, st, a[0], ctx):
            for s, i2, x in nxt_back(ip, s0, it, ctx):
                put(s, i2)
                yield s, x if isinstance(x, Panic) else (NONE if x is END else some(x))
    return f


@path("std::iter::Peekable::peek", "std::iter::Peekable::peek_mut")
def it_peek(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    it = ip.read_path(st, m.c, m.p)
    if it.f[1] is not None:
        x = it.f[1][0]
        yield st, NONE if x is END else some(Ref(x))
        return
    if isinstance(it.f[0], N) and it.f[0].k in ("chars", "charidx") and isinstance(it.f[0].f[0], Rope):
        import loops
        if st.norm(it.f[0].f[0]).s == (loops.MARK,):
            yield st, N("notlooked")
            return
    for s, i2, x in nxt(ip, st, it.f[0], ctx):
        if isinstance(x, Panic):
            yield s, x
            continue
        ip.write_path(s, m.c, m.p, N("peek", i2, (x,)))
        yield s, NONE if x is END else some(Ref(x))


@path("std::iter::Peekable::next_if", "std::iter::Peekable::next_if_eq")
def it_next_if(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    it = ip.read_path(st, m.c, m.p)
    for s, i2, x in nxt(ip, st, it, ctx):
        if isinstance(x, Panic):
            yield s, x
        elif x is END:
            ip.write_path(s, m.c, m.p, N("peek", i2.f[0], (END,)))
            yield s, NONE
        else:
            g = ip.call_value(s, a[1], [Ref(x)], ctx) if I["path"].rstrip(">").find("next_if_eq") < 0 else eq_values(ip, s, x, val(ip, s, a[1]), None, None, ctx)
            for s2, v in g:
                if isinstance(v, Panic):
                    yield s2, v
                    continue
                for s3, t in decide(s2, v):
                    ip.write_path(s3, m.c, m.p, N("peek", i2.f[0], None if t else (x,)))
                    yield s3, some(x) if t else NONE


@path("std::str::Chars::as_str", "std::str::CharIndices::as_str")
def it_as_str(ip, st, a, I, ctx):
    return val(ip, st, a[0]).f[0]


@path("std::str::CharIndices::offset")
def it_offset(ip, st, a, I, ctx):
    return val(ip, st, a[0]).f[1]


def consumer(name):
    def d(fn):
        def f(ip, st, a, I, ctx):
            for s0, it, put in with_it(ip, st, a[0], ctx):
                if isinstance(it, Panic):
                    yield s0, it
                else:
                    yield from fn(ip, s0, it, put, a, I, ctx)
        TR[IT + name] = f
        return f
    return d


def _any(ip, st, it, put, a, I, ctx, want):
    base = chars_base(st, it)
    if base is not None:
        try:
            b = ip.pred_bits(st, a[1], ctx)
        except Abandon:
            b = None
        if b is not None:
            stop = b if want else ALL & ~b
            for s, (pre, rest) in ropes.take_while(st, base, ALL & ~stop):
                for s2, sp in ropes.split_first(s, rest):
                    put(s2, N("chars", EMPTY if sp is None else sp[1]))
                    yield s2, (sp is not None) == want
            return
    work = [(st, it, a[1])]
    n = 0
    while work:
        s0, i0, fn = work.pop()
        n += 1
        if n > 3000:
            raise Abandon("any/all over an unbounded number of items")
        for s, i2, x in nxt(ip, s0, i0, ctx):
            if isinstance(x, Panic):
                yield s, x
            elif x is END:
                put(s, i2)
                yield s, not want
            else:
                for s2, v, g in ip.call_mut(s, fn, [x], ctx):
                    if isinstance(v, Panic):
                        yield s2, v
                        continue
                    for s3, t in decide(s2, v):
                        if t == want:
                            put(s3, i2)
                            yield s3, want
                        else:
                            work.append((s3, i2, g))


def chars_base(st, it):
    """the text, when the iterator gives the characters of a text with something symbolic in it"""
    if it.k == "chars":
        r = st.norm(it.f[0])
        if r.lit() is None:
            return r
    return None


@consumer("any")
def it_any(ip, st, it, put, a, I, ctx):
    yield from _any(ip, st, it, put, a, I, ctx, True)


@consumer("all")
def it_all(ip, st, it, put, a, I, ctx):
    yield from _any(ip, st, it, put, a, I, ctx, False)


def _search(ip, st, it, put, fn, ctx, item):
    """item: how to call: 'ref' predicate on &item, 'val' predicate on item, 'map' find_map"""
    work = [(st, it, fn, 0)]
    while work:
        s0, i0, f, n = work.pop()
        if n > 2000:
            raise Abandon("search over an unbounded number of items")
        for s, i2, x in nxt(ip, s0, i0, ctx):
            if isinstance(x, Panic):
                yield s, x, None
            elif x is END:
                put(s, i2)
                yield s, END, n
            else:
                for s2, v, g in ip.call_mut(s, f, [Ref(x) if item == "ref" and not isinstance(x, Rope) else x], ctx):
                    if isinstance(v, Panic):
                        yield s2, v, None
                    elif item == "map":
                        if v.v == 1:
                            put(s2, i2)
                            yield s2, v.f[0], n
                        else:
                            work.append((s2, i2, g, n + 1))
                    else:
                        for s3, t in decide(s2, v):
                            if t:
                                put(s3, i2)
                                yield s3, x, n
                            else:
                                work.append((s3, i2, g, n + 1))


@consumer("find")
def it_find(ip, st, it, put, a, I, ctx):
    for s, x, n in _search(ip, st, it, put, a[1], ctx, "ref"):
        yield s, x if isinstance(x, Panic) else (NONE if x is END else some(x))


@consumer("find_map")
def it_find_map(ip, st, it, put, a, I, ctx):
    for s, x, n in _search(ip, st, it, put, a[1], ctx, "map"):
        yield s, x if isinstance(x, Panic) else (NONE if x is END else some(x))


@consumer("position")
def it_position(ip, st, it, put, a, I, ctx):
    for s, x, n in _search(ip, st, it, put, a[1], ctx, "val"):
        yield s, x if isinstance(x, Panic) else (NONE if x is END else some(n))


@consumer("rposition")
def it_rposition(ip, st, it, put, a, I, ctx):
    for s, xs in gather(ip, st, it, ctx):
        for s2, x, n in _search(ip, s, N("list", tuple(reversed(xs))), put, a[1], ctx, "val"):
            yield s2, x if isinstance(x, Panic) else (NONE if x is END else some(len(xs) - 1 - n))


@consumer("nth")
def it_nth(ip, st, it, put, a, I, ctx):
    n = st.nint(a[1])
    base = chars_base(st, it)
    if base is not None:
        yield from nth_char(ip, st, base, n, put, ctx)
        return
    if not isinstance(n, int):
        raise Abandon("nth")
    work = [(st, it, n)]
    while work:
        s0, i0, k = work.pop()
        for s, i2, x in nxt(ip, s0, i0, ctx):
            if isinstance(x, Panic):
                yield s, x
            elif x is END:
                put(s, i2)
                yield s, NONE
            elif k == 0:
                put(s, i2)
                yield s, some(x)
            else:
                work.append((s, i2, k - 1))


def nth_char(ip, st, r, n, put, ctx):
    """the n-th character of a text that is not fixed: none, or some character of it"""
    r = st.norm(r)
    # exact while the characters are at hand
    k = n
    segs = list(r.s)
    while segs and isinstance(k, int):
        x = segs[0]
        if isinstance(x, str):
            if k < len(x):
                put(st, N("chars", mk_rope([x[k + 1:]] + segs[1:])))
                yield st, some(ord(x[k]))
                return
            k -= len(x)
        elif isinstance(x, Cs):
            if k == 0:
                put(st, N("chars", mk_rope(segs[1:])))
                yield st, some(ChS(x.id))
                return
            k -= 1
        elif isinstance(x, Sy) and st.syms[x.id].lo == st.syms[x.id].hi and st.syms[x.id].cs & NONASCII == 0 and st.syms[x.id].lo <= k:
            k -= st.syms[x.id].lo
        elif isinstance(x, Ap) and x.lo == x.hi and x.cs & NONASCII == 0 and x.lo <= k:
            k -= x.lo
        else:
            break
        segs.pop(0)
    if not segs and isinstance(k, int):
        put(st, N("chars", EMPTY))
        yield st, NONE
        return
    ascii_only = not any(st.seg_cs(x) & NONASCII for x in segs)
    if ascii_only:
        # characters are bytes
        rest = mk_rope(segs)
        for s0, beyond in decide(st, B("le", lin_add(s_len(st, rest), k, -1))):
            if beyond:
                put(s0, N("chars", EMPTY))
                yield s0, NONE
                continue
            for s, c in ropes.cut(s0, s0.norm(rest), k):
                if c is None:
                    raise Abandon("nth")
                for s2, sp in ropes.split_first(s, c[1], step=0):
                    if sp is None:
                        continue
                    put(s2, N("chars", sp[1]))
                    yield s2, some(sp[0])
        return
    cs = 0
    for x in segs:
        cs |= st.seg_cs(x)
    key = T("nth", r, n)
    for f, v in st.facts:
        if f.op == "app" and (f.a[0] == key or isinstance(f.a[0], T) and f.a[0].op == "nth" and f.a[0].a[1] == n and st.norm(f.a[0].a[0]) == r):
            if not v:
                yield st, NONE
            else:
                yield st, some(ChS(f.a[1]))
            return
    # not there: fewer characters; possible unless every character is one byte wide
    s = st.clone()
    total = s.rlen(r)
    try:
        # n characters or fewer take at most 4 n bytes
        if isinstance(n, int):
            ropes.assume_le(s, lin_add(total, 4 * n, -1))
        s.fact(B("app", key, None), False)
        put(s, N("chars", EMPTY))
        yield s, NONE
    except Infeasible:
        pass
    s = st.clone()
    try:
        if isinstance(n, int):
            ropes.assume_le(s, lin_add(n + 1, total, -1))
        c = s.fresh("nth", kind="c", cs=cs, df=key)
        s.fact(B("app", key, c), True)
        put(s, N("chars", mk_rope([Ap(T("after", r, n), cs, 0, BIG)])))
        yield s, some(ChS(c))
    except Infeasible:
        pass


def s_len(st, r):
    return st.rlen(r)


@consumer("count")
def it_count(ip, st, it, put, a, I, ctx):
    if it.k == "chars" and chars_base(st, it) is not None:
        r = st.norm(it.f[0])
        if not any(st.seg_cs(x) & NONASCII for x in r.s):
            yield st, st.rlen(r)
            return
        n, rest = 0, []
        for x in r.s:
            if isinstance(x, str):
                n += len(x)
            elif isinstance(x, Cs):
                n += 1
            elif not st.seg_cs(x) & NONASCII:
                n = lin_add(n, st.seg_len(x))
            else:
                rest.append(x)
        for x in rest:
            lo, hi = st.irange(st.seg_len(x))
            n = lin_add(n, ip.opaque_int(st, "chars", (Rope((x,)),), (lo + 3) // 4, hi))
        yield st, n
        return
    for s, xs in gather(ip, st, it, ctx):
        yield s, xs if isinstance(xs, Panic) else len(xs)


@consumer("last")
def it_last(ip, st, it, put, a, I, ctx):
    if it.k == "chars":
        for s, sp in split_last(st, it.f[0]):
            yield s, NONE if sp is None else some(sp[1])
        return
    for s, xs in gather(ip, st, it, ctx):
        yield s, xs if isinstance(xs, Panic) else (some(xs[-1]) if xs else NONE)


_folds = [0]


def _fold(ip, st, it, acc, fn, ctx, trying=None):
    def turn(s, cell, out):
        i0, ac, f = s.cells[cell].f
        for s1, i2, x in nxt(ip, s, i0, ctx):
            if isinstance(x, Panic):
                out.append((s1, i2, x))
            elif x is END:
                out.append((s1, i2, ac))
            else:
                for s2, v, g in ip.call_mut(s1, f, [ac, x] if ac is not END else [x], ctx):
                    if isinstance(v, Panic):
                        out.append((s2, i2, v))
                        continue
                    if trying is not None:
                        go, v2 = trying(v)
                        if not go:
                            out.append((s2, i2, (v,)))
                            continue
                        v = v2
                    s2.cells[cell] = A("fold", 0, (i2, v if ac is not END else END, g))
                    yield s2
    _folds[0] += 1
    cell = ("fold", _folds[0])
    st = st.clone()
    st.cells[cell] = A("fold", 0, (it, acc, fn))

    def trial(s):
        out = []
        for s2 in turn(s, cell, out):
            yield s2, True
        for s2, _, _ in out:
            yield s2, False
    work = [st]
    n = 0
    while work:
        s0 = work.pop()
        n += 1
        if n > 5000:
            raise Abandon("fold over an unbounded number of items")
        if ctx is not None:
            got = loops.fold_run(ip, s0, cell, trial)
            if got is not None:
                work += got
                continue
        out = []
        for s2 in turn(s0, cell, out):
            work.append(s2)
        for s2, i2, v in out:
            s2.cells.pop(cell, None)
            yield s2, i2, v


@consumer("fold")
def it_fold(ip, st, it, put, a, I, ctx):
    for s, i, v in _fold(ip, st, it, a[1], a[2], ctx):
        yield s, v


@consumer("for_each")
def it_for_each(ip, st, it, put, a, I, ctx):
    for s, i, v in _fold(ip, st, it, END, a[1], ctx):
        yield s, v if isinstance(v, Panic) else UNIT


def try_kind(ip, t):
    return tyk(ip, t)


def _trier(kind):
    if kind == "std::option::Option":
        return (lambda v: (v.v == 1, v.f[0] if v.v == 1 else None)), some
    if kind == "std::result::Result":
        return (lambda v: (v.v == 0, v.f[0])), ok
    if kind == "std::ops::ControlFlow":
        return (lambda v: (v.v == 0, v.f[0])), (lambda x: A(None, 0, (x,)))
    raise Abandon("try_fold over " + kind)


@consumer("try_fold")
def it_try_fold(ip, st, it, put, a, I, ctx):
    kind = tyk(ip, I["args"][-1]) if isinstance(I["args"][-1], int) else "?"
    if kind not in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
        kind = next((tyk(ip, x) for x in I["args"] if isinstance(x, int) and tyk(ip, x) in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow")), kind)
    tr, wrap = _trier(kind)
    for s, i, v in _fold(ip, st, it, a[1], a[2], ctx, tr):
        put(s, i)
        yield s, v if isinstance(v, Panic) else (v[0] if isinstance(v, tuple) else wrap(v))


@consumer("try_for_each")
def it_try_for_each(ip, st, it, put, a, I, ctx):
    kind = next((tyk(ip, x) for x in I["args"] if isinstance(x, int) and tyk(ip, x) in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow")), "?")
    tr, wrap = _trier(kind)
    for s, i, v in _fold(ip, st, it, END, a[1], ctx, tr):
        put(s, i)
        yield s, v if isinstance(v, Panic) else (v[0] if isinstance(v, tuple) else wrap(UNIT))


@consumer("sum")
def it_sum(ip, st, it, put, a, I, ctx):
    for s, xs in gather(ip, st, it, ctx):
        if isinstance(xs, Panic):
            yield s, xs
            continue
        t = 0
        for x in xs:
            t = lin_add(t, val(ip, s, x))
        yield s, t


def _best(ip, st, xs, sign, keyf, ctx, cmpf=None, first_wins=False):
    if not xs:
        yield st, NONE
        return

    def go(s, best, rest):
        if not rest:
            yield s, some(best)
            return
        g = cmpf(s, best, rest[0])
        for s2, c in g:
            if isinstance(c, Panic):
                yield s2, c
            elif sign > 0:      # max: last of the greatest
                yield from go(s2, rest[0] if c <= 0 else best, rest[1:])
            else:               # min: first of the least
                yield from go(s2, best if c <= 0 else rest[0], rest[1:])
    yield from go(st, xs[0], xs[1:])


def _mm(name, sign, how):
    @consumer(name)
    def f(ip, st, it, put, a, I, ctx):
        for s, xs in gather(ip, st, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
                continue
            if how == "plain":
                cf = lambda s2, x, y: cmp_values(ip, s2, x, y, None, ctx)
            elif how == "key":
                def cf(s2, x, y):
                    for s3, kx in ip.call_value(s2, a[1], [Ref(x)], ctx):
                        for s4, ky in ip.call_value(s3, a[1], [Ref(y)], ctx):
                            yield from cmp_values(ip, s4, kx, ky, None, ctx)
            else:
                def cf(s2, x, y):
                    for s3, o in ip.call_value(s2, a[1], [Ref(x), Ref(y)], ctx):
                        yield from ord_val(ip, s3, o)
            yield from _best(ip, s, xs, sign, None, ctx, cf)


for _n, _s in (("max", 1), ("min", -1)):
    _mm(_n, _s, "plain")
    _mm(_n + "_by_key", _s, "key")
    _mm(_n + "_by", _s, "by")


@consumer("partition")
def it_partition(ip, st, it, put, a, I, ctx):
    t = next((x for x in I["args"][1:] if isinstance(x, int) and tyk(ip, x) in ("std::vec::Vec", "std::string::String")), None)
    for s, xs in gather(ip, st, it, ctx):
        if isinstance(xs, Panic):
            yield s, xs
            continue

        def go(s, rest, l, r):
            if not rest:
                yield s, tup(Seq(l), Seq(r))
                return
            for s2, v, g in ip.call_mut(s, a[1], [Ref(rest[0])], ctx):
                if isinstance(v, Panic):
                    yield s2, v
                    continue
                for s3, b in decide(s2, v):
                    yield from go(s3, rest[1:], l + (rest[0],) if b else l, r if b else r + (rest[0],))
        yield from go(s, xs, (), ())


@consumer("unzip")
def it_unzip(ip, st, it, put, a, I, ctx):
    for s, xs in gather(ip, st, it, ctx):
        yield s, xs if isinstance(xs, Panic) else tup(Seq(tuple(x.f[0] for x in xs)), Seq(tuple(x.f[1] for x in xs)))


@consumer("eq")
def it_eq(ip, st, it, put, a, I, ctx):
    for s, xs in gather(ip, st, it, ctx):
        for s1, o in into_it(ip, s, a[1], ctx):
            for s2, ys in gather(ip, s1, o, ctx):
                if len(xs) != len(ys):
                    yield s2, False
                else:
                    yield from eq_lists(ip, s2, [(x, y, None, None) for x, y in zip(xs, ys)], ctx)


def cmp_lists(ip, st, xs, ys, ctx):
    if not xs or not ys:
        yield st, (len(xs) > 0) - (len(ys) > 0)
        return
    for s, c in cmp_values(ip, st, xs[0], ys[0], None, ctx):
        if isinstance(c, Panic) or c != 0:
            yield s, c
        else:
            yield from cmp_lists(ip, s, xs[1:], ys[1:], ctx)


def _it_cmp(name, f):
    @consumer(name)
    def g(ip, st, it, put, a, I, ctx):
        for s, xs in gather(ip, st, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
                continue
            for s1, o in into_it(ip, s, a[1], ctx):
                for s2, ys in gather(ip, s1, o, ctx):
                    if name == "ne" and len(xs) != len(ys):
                        yield s2, True
                    elif name == "ne":
                        for s3, v in eq_lists(ip, s2, [(x, y, None, None) for x, y in zip(xs, ys)], ctx):
                            yield s3, v if isinstance(v, Panic) else not v
                    else:
                        for s3, c in cmp_lists(ip, s2, xs, ys, ctx):
                            yield s3, c if isinstance(c, Panic) else f(c)


_it_cmp("ne", None)
_it_cmp("cmp", lambda c: A(None, c + 1, ()))
_it_cmp("partial_cmp", lambda c: some(A(None, c + 1, ())))
for _n, _f in (("lt", lambda c: c < 0), ("le", lambda c: c <= 0), ("gt", lambda c: c > 0), ("ge", lambda c: c >= 0)):
    _it_cmp(_n, _f)


@consumer("reduce")
def it_reduce(ip, st, it, put, a, I, ctx):
    for s, i, x in nxt(ip, st, it, ctx):
        if isinstance(x, Panic):
            yield s, x
        elif x is END:
            yield s, NONE
        else:
            for s2, _, v in _fold(ip, s, i, x, a[1], ctx):
                yield s2, v if isinstance(v, Panic) else some(v)


def hint(it):
    """the size hint of the standard adapters, None if it is not known here"""
    if not isinstance(it, N):
        return None
    k, f = it.k, it.f
    if k == "list":
        return len(f[0]), len(f[0])
    if k in ("rev", "map", "enum", "cloned", "inspect"):
        return hint(f[0])
    if k in ("filter", "filter_map", "tw", "mapw", "sw", "scan"):
        h = hint(f[0])
        return None if h is None else (0, h[1])
    if k == "fromfn":
        return 0, None
    if k == "chain":
        x, y = hint(f[0]) if f[0] is not None else (0, 0), hint(f[1]) if f[1] is not None else (0, 0)
        if x is None or y is None:
            return None
        return x[0] + y[0], None if x[1] is None or y[1] is None else x[1] + y[1]
    if k == "zip":
        x, y = hint(f[0]), hint(f[1])
        if x is None or y is None:
            return None
        u = [n for n in (x[1], y[1]) if n is not None]
        return min(x[0], y[0]), min(u) if u else None
    if k in ("take", "skip") and isinstance(f[1], int):
        h = hint(f[0])
        if h is None:
            return None
        if k == "take":
            return min(h[0], f[1]), f[1] if h[1] is None else min(h[1], f[1])
        return max(h[0] - f[1], 0), None if h[1] is None else max(h[1] - f[1], 0)
    if k == "range" and isinstance(f[0], int) and isinstance(f[1], int):
        n = max(0, f[1] - f[0] + (1 if f[2] else 0))
        return n, n
    return None


@consumer("size_hint")
def it_size_hint(ip, st, it, put, a, I, ctx):
    h = hint(it)
    if h is not None:
        yield st, tup(h[0], NONE if h[1] is None else some(h[1]))
        return
    n = ip.opaque_int(st, "sizehint", (it,), 0)
    yield st, tup(n, NONE if isinstance(it, N) and it.k == "repeat" else some(ip.opaque_int(st, "sizehint", (it, 1), 0)))


@trait("std::iter::ExactSizeIterator::len")
def it_len(ip, st, a, I, ctx):
    it = val(ip, st, a[0])
    if isinstance(it, A):
        for s, i in into_it(ip, st, it, ctx):
            it = i
            break
    if not isinstance(it, N):
        raise Abandon("length of %r" % (it,))
    if it.k == "list":
        return len(it.f[0])
    if it.k in ("rev", "map", "enum", "cloned"):
        return it_len(ip, st, [it.f[0]], I, ctx)
    if it.k == "range" and isinstance(it.f[0], int) and isinstance(it.f[1], int):
        return max(0, it.f[1] - it.f[0] + (1 if it.f[2] else 0))
    raise Abandon("length of an iterator")


@path("std::slice::Iter::as_slice", "std::vec::IntoIter::as_slice")
def it_as_slice(ip, st, a, I, ctx):
    it = val(ip, st, a[0])
    return Ref(Seq(tuple(val1(ip, st, x) for x in it.f[0])))


# ------------------------------------------------------------------ collecting
def char_transducer(ip, st, it, ctx):
    """characterwise image, when the iterator maps every character of a text on its own; None otherwise"""
    chain = []
    base = it
    while base.k in ("map", "filter", "filter_map", "flat", "cloned") and not (base.k == "flat" and (base.f[1] is not None or base.f[3] is not None)):
        chain.append(base)
        base = base.f[0]
    if base.k != "chars":
        return None
    r = st.norm(base.f[0])
    if all(isinstance(x, (str, Cs)) for x in r.s):
        return None
    m = []
    need = 0
    for x in r.s:
        need |= st.seg_cs(x)
    for a in atoms(need):
        one = N("list", (ord(ATOM_REPR[a]),))
        for c in reversed(chain):
            one = N(c.k, one, *c.f[1:])
        outs = []
        for s, t in gather_text(ip, st.clone(), one, ctx):
            if isinstance(t, Panic):
                return None
            outs.append(t.lit())
        if len(outs) != 1 or outs[0] is None:
            return None
        if a >= 128 and not is_single(a):
            # the representative stands for a group: only the identity and constants carry over
            if outs[0] == ATOM_REPR[a]:
                continue
            if ATOM_REPR[a] in outs[0]:
                return None
        if outs[0] != ATOM_REPR[a]:
            m.append((a, outs[0]))
    from nstr import hom_chars
    return hom_chars(st, r, tuple(m))


def gather_text(ip, st, it, ctx):
    """yields (state, rope): the items (characters or texts) one after the other"""
    for s, xs in gather(ip, st, it, ctx):
        if isinstance(xs, Panic):
            yield s, xs
            continue
        out = []
        for x in xs:
            y = val(ip, s, x)
            out.append(ch_rope(s, y) if isinstance(y, (int, ChS)) else text(ip, s, y))
        yield s, cat(*out)


def from_iter(ip, st, it, t, ctx):
    """yields (state, collection of type t); None when the type is not covered"""
    k = tyk(ip, t)
    if k in ("std::string::String", "std::borrow::Cow"):
        try:
            r = char_transducer(ip, st, it, ctx)
        except Abandon:
            r = None
        g = [(st, r)] if r is not None else gather_text(ip, st, it, ctx)
        for s, x in g:
            yield s, x if k == "std::string::String" or isinstance(x, Panic) else A(t, 1, (x,))
    elif k in ("std::vec::Vec", "std::boxed::Box", "std::collections::VecDeque", "std::rc::Rc", "std::sync::Arc"):
        if k == "std::boxed::Box" and tyk(ip, ip.p.types[t]["args"][0]) == "str":
            yield from gather_text(ip, st, it, ctx)
            return
        for s, xs in gather(ip, st, it, ctx):
            yield s, xs if isinstance(xs, Panic) else Seq(xs)
    elif k in ("std::collections::BTreeMap", "std::collections::HashMap"):
        from nmap import map_insert
        kind = "b" if "BTree" in k else "h"
        for s, xs in gather(ip, st, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
                continue
            yield from insert_all(ip, s, MapV(kind, ()), [(x.f[0], x.f[1]) for x in xs], ctx)
    elif k in ("std::collections::BTreeSet", "std::collections::HashSet"):
        kind = "b" if "BTree" in k else "h"
        for s, xs in gather(ip, st, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
                continue
            yield from insert_all(ip, s, MapV(kind, ()), [(x, UNIT) for x in xs], ctx)
    elif k in ("std::option::Option", "std::result::Result"):
        good = 1 if k == "std::option::Option" else 0
        inner = ip.p.types[t]["args"][0]
        for s, xs, bad in gather_try(ip, st, it, good, ctx):
            if isinstance(xs, Panic):
                yield s, xs
            elif bad is not None:
                yield s, bad
            else:
                for s2, c in from_iter(ip, s, N("list", xs), inner, ctx):
                    yield s2, c if isinstance(c, Panic) else A(None, good, (c,))
    elif k == "tuple" and not ip.p.types[t]["elems"]:
        for s, xs in gather(ip, st, it, ctx):
            yield s, xs if isinstance(xs, Panic) else UNIT
    else:
        raise Abandon("collecting into " + k)


def gather_try(ip, st, it, good, ctx):
    work = [(st, it, ())]
    while work:
        s0, i0, acc = work.pop()
        for s, i2, x in nxt(ip, s0, i0, ctx):
            if x is END:
                yield s, acc, None
            elif isinstance(x, Panic):
                yield s, x, None
            elif x.v == good:
                if len(acc) > MAXITEMS:
                    raise Abandon("iteration over an unbounded number of items")
                work.append((s, i2, acc + (x.f[0],)))
            else:
                yield s, None, x


def insert_all(ip, st, m, es, ctx):
    from nmap import map_insert
    if not es:
        yield st, m
        return
    for s, m2, old in map_insert(ip, st, m, es[0][0], es[0][1], ctx):
        if isinstance(m2, Panic):
            yield s, m2
        else:
            yield from insert_all(ip, s, m2, es[1:], ctx)


def from_items(ip, st, ty, items, ctx):
    yield from from_iter(ip, st, N("list", tuple(items)), ty, ctx)


import natives as _n     # noqa: E402
_n.from_items = from_items


@trait(IT + "collect")
@sel
def t_collect(ip, I, s, k, base):
    t = I["args"][-1]
    if not isinstance(t, int) or is_local(ip, t):
        return None

    def f(ip, st, a, I, ctx):
        for s0, it in into_it(ip, st, a[0], ctx):
            if isinstance(it, Panic):
                yield s0, it
            else:
                yield from from_iter(ip, s0, it, t, ctx)
    return f


@trait("std::iter::FromIterator::from_iter")
@sel
def t_from_iter(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness") or is_local(ip, s):
        return None

    def f(ip, st, a, I, ctx):
        for s0, it in into_it(ip, st, a[0], ctx):
            if isinstance(it, Panic):
                yield s0, it
            else:
                yield from from_iter(ip, s0, it, s, ctx)
    return f


@trait("std::iter::Extend::extend")
@path("std::vec::Vec::extend_from_slice", "std::vec::Vec::append")
def t_extend(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    old = ip.read_path(st, m.c, m.p)
    if isinstance(old, A):
        raise Abandon("extend")
    if I["method"] == "append":
        n = mutcell(ip, st, a[1])
        more = ip.read_path(st, n.c, n.p)
        ip.write_path(st, n.c, n.p, Seq(()))
        ip.write_path(st, m.c, m.p, Seq(old.e + more.e))
        yield st, UNIT
        return
    if I["method"] == "extend_from_slice":
        more = val(ip, st, a[1])
        if isinstance(more, Bytes) and isinstance(old, (Bytes, Seq)):
            ip.write_path(st, m.c, m.p, Bytes(cat(text(ip, st, old), more.r)))
            yield st, UNIT
            return
        for s, vs in clone_list(ip, st, more.e, I["args"][0] if isinstance(I["args"][0], int) else None, ctx):
            if isinstance(vs, Panic):
                yield s, vs
            else:
                ip.write_path(s, m.c, m.p, Seq(old.e + tuple(vs)))
                yield s, UNIT
        return
    for s0, it in into_it(ip, st, a[1], ctx):
        if isinstance(old, Rope):
            r = None
            try:
                r = char_transducer(ip, s0, it, ctx)
            except Abandon:
                pass
            for s, x in ([(s0, r)] if r is not None else gather_text(ip, s0, it, ctx)):
                if isinstance(x, Panic):
                    yield s, x
                else:
                    ip.write_path(s, m.c, m.p, cat(old, x))
                    yield s, UNIT
            continue
        for s, xs in gather(ip, s0, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
                continue
            if isinstance(old, Seq):
                cur = ip.read_path(s, m.c, m.p)
                ip.write_path(s, m.c, m.p, Seq(cur.e + tuple(val1(ip, s, x) if isinstance(x, Ref) and cur.e and not isinstance(cur.e[0], Ref) else x for x in xs)))
                yield s, UNIT
            elif isinstance(old, MapV):
                for s2, m2 in insert_all(ip, s, old, [(x.f[0], x.f[1]) for x in xs], ctx):
                    if isinstance(m2, Panic):
                        yield s2, m2
                    else:
                        ip.write_path(s2, m.c, m.p, m2)
                        yield s2, UNIT
            else:
                raise Abandon("extend")
