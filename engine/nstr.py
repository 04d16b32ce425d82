"""Models of String, str, char and integer parsing."""
from natives import *
from natives import P, TR, chr_seg
import ropes
from ropes import decide, Infeasible, resolve_ch, sub, bind, restrict, bind_char, branches, assume_empty

WS = "\t\n\x0b\x0c\r \x85\u00a0\u3000\u2028"
ASCII_ATOMS = (1 << 128) - 1


# ------------------------------------------------------------------ taking texts apart from the end
def split_last(st, r):
    """yields (state, None) for the empty text, (state, (rest, char)) otherwise"""
    r = st.norm(r)
    if not r.s:
        yield st, None
        return
    x = r.s[-1]
    rest = r.s[:-1]
    if isinstance(x, str):
        yield st, (mk_rope(list(rest) + [x[:-1]]), ord(x[-1]))
        return
    if isinstance(x, Cs):
        yield st, (Rope(rest), ChS(x.id))
        return
    if isinstance(x, Ap):
        raise Abandon("last character of an opaque text %r" % (x,))
    y = st.syms[x.id]
    if y.lo == 0:
        def empty(s):
            assume_empty(s, x)
        for s, _ in branches(st, empty):
            yield from split_last(s, Rope(rest))
    d = dict(x.m) if isinstance(x, Hm) else {}
    groups = {}
    for a in atoms(y.cs):
        g = ("m", a) if a in d else "id"
        groups[g] = groups.get(g, 0) | 1 << a
    for g, cs in groups.items():
        def tail(s, cs=cs):
            c = sub(s, x.id, "c", cs=cs, kind="c")
            cl = [ATOM_LEN[a] for a in atoms(cs)]
            t = sub(s, x.id, x.id, lo=max(0, y.lo - max(cl)), hi=BIG if y.hi >= BIG else max(0, y.hi - min(cl)))
            bind(s, x.id, Rope((Sy(t), Cs(c))))
            if cs & (cs - 1) == 0 and is_single(cs.bit_length() - 1):
                bind_char(s, c, ord(ATOM_REPR[cs.bit_length() - 1]))
            return s.norm(Rope(rest + (x,)))
        for s, full in branches(st, tail):
            if g == "id" or full.s and not isinstance(full.s[-1], Hm):
                yield from split_last(s, full)
            else:
                raise Abandon("substituted character")


def rtake_while(st, r, cs, acc=()):
    """longest suffix whose characters are all in cs; yields (state, (rest, suffix))"""
    r = st.norm(r)
    segs = list(r.s)
    while segs:
        x = segs[-1]
        have = st.seg_cs(x)
        if have & ~cs == 0:
            segs.pop()
            acc = (x,) + tuple(acc)
            continue
        if isinstance(x, str):
            n = len(x)
            while n and (cs >> atom_of(ord(x[n - 1]))) & 1:
                n -= 1
            yield st, (mk_rope(segs[:-1] + [x[:n]]), mk_rope([x[n:]] + list(acc)))
            return
        if isinstance(x, Ap):
            if have & cs == 0 and x.lo > 0:
                yield st, (mk_rope(segs), mk_rope(acc))
                return
            raise Abandon("scanning an opaque text")
        if isinstance(x, Cs):
            for s, v in decide(st, B("chin", ChS(x.id), cs)):
                if v:
                    yield from rtake_while(s, mk_rope(segs[:-1]), cs, tuple(s.norm(Rope((x,))).s) + tuple(acc))
                else:
                    yield s, (s.norm(mk_rope(segs)), mk_rope(acc))
            return
        if isinstance(x, Hm):
            raise Abandon("scanning a substituted text from the end")
        y = st.syms[x.id]

        def alli(s):
            restrict(s, x.id, cs)

        def split(s):
            p = sub(s, x.id, x.id)
            c = sub(s, x.id, "c", cs=y.cs & ~cs, kind="c")
            bind_single(s, c)
            if y.cs & cs:
                q = sub(s, x.id, x.id, cs=y.cs & cs)
                bind(s, x.id, Rope((Sy(p), Cs(c), Sy(q))))
            else:
                bind(s, x.id, Rope((Sy(p), Cs(c))))
        for s, _ in branches(st, alli):
            yield from rtake_while(s, mk_rope(segs), cs, acc)
        for s, _ in branches(st, split):
            yield from rtake_while(s, mk_rope(segs), cs, acc)
        return
    yield st, (EMPTY, mk_rope(acc))


def bind_single(s, c):
    cs = s.syms[c].cs
    if cs and cs & (cs - 1) == 0 and is_single(cs.bit_length() - 1):
        bind_char(s, c, ord(ATOM_REPR[cs.bit_length() - 1]))


# ------------------------------------------------------------------ patterns
def pattern(ip, st, v, ctx):
    """("lit", text), ("cls", class) or ("rope", rope)"""
    w = v
    while True:
        if isinstance(w, (Ref, Bx)):
            w = w.v
        elif isinstance(w, Mut):
            t = ip.read_path(st, w.c, w.p)
            if isinstance(t, A) and t.ty is not None and ip.p.types[t.ty]["k"] == "closure":
                return ("cls", ip.pred_bits(st, t, ctx))
            w = t
        else:
            break
    if isinstance(w, bool):
        raise Abandon("pattern")
    if isinstance(w, int):
        return ("lit", chr(w))
    if isinstance(w, ChS):
        w = resolve_ch(st, w)
        if isinstance(w, int):
            return ("lit", chr(w))
        return ("rope", Rope((Cs(w.id),)))
    if isinstance(w, Rope):
        w = st.norm(w)
        l = w.lit()
        return ("lit", l) if l is not None else ("rope", w)
    if isinstance(w, Seq):
        b = 0
        for c in w.e:
            c = val(ip, st, c)
            if not isinstance(c, int) or not is_single(atom_of(c)):
                raise Abandon("set of characters as a pattern")
            b |= 1 << atom_of(c)
        return ("cls", b)
    if isinstance(w, A) and (w.ty is not None and ip.p.types[w.ty]["k"] == "closure") or isinstance(w, (Fn, N)):
        return ("cls", ip.pred_bits(st, w, ctx))
    if isinstance(w, A):
        return pattern(ip, st, text(ip, st, w), ctx)
    raise Abandon("pattern %r" % (w,))


def pat_find(ip, st, r, p):
    """yields (state, None) or (state, (before, match, after))"""
    r = st.norm(r)
    if p[0] == "lit":
        if len(p[1]) == 1 and is_single(atom_of(ord(p[1]))):
            p = ("cls", bits(p[1]))
        else:
            for s, f in ropes.find(st, r, p[1]):
                if f is None:
                    yield s, None
                else:
                    for s2, c in ropes.cut(s, f[1], len(p[1].encode())):
                        yield s2, (s2.norm(f[0]), R(p[1]), c[1])
            return
    if p[0] == "cls":
        for s, (pre, rest) in ropes.take_while(st, r, ALL & ~p[1]):
            for s2, sp in ropes.split_first(s, rest):
                if sp is None:
                    yield s2, None
                else:
                    yield s2, (s2.norm(pre), ch_rope(s2, sp[0]), s2.norm(sp[1]))
        return
    l, q = r.lit(), st.norm(p[1]).s
    if l is not None and len(q) == 1 and isinstance(q[0], Cs) and all(is_single(atom_of(ord(c))) for c in l):
        todo = [(st, 0)]
        while todo:
            s, i = todo.pop()
            if i == len(l):
                yield s, None
                continue
            for s2, v in decide(s, B("chin", ChS(q[0].id), bits(l[i]))):
                if v:
                    yield s2, (R(l[:i]), R(l[i]), R(l[i + 1:]))
                else:
                    todo.append((s2, i + 1))
        return
    raise Abandon("search for a pattern that is not fixed")


def pat_rfind(ip, st, r, p):
    r = st.norm(r)
    if p[0] == "lit" and len(p[1]) == 1 and is_single(atom_of(ord(p[1]))):
        p = ("cls", bits(p[1]))
    if p[0] == "cls":
        for s, (rest, suf) in rtake_while(st, r, ALL & ~p[1]):
            for s2, sp in split_last(s, rest):
                if sp is None:
                    yield s2, None
                else:
                    yield s2, (s2.norm(sp[0]), ch_rope(s2, sp[1]), s2.norm(suf))
        return
    if p[0] == "lit":
        l = r.lit()
        if l is not None:
            i = l.rfind(p[1])
            yield st, None if i < 0 else (R(l[:i]), R(p[1]), R(l[i + len(p[1]):]))
            return
        if not ropes.may_contain(st, r, p[1]):
            yield st, None
            return
    raise Abandon("search from the end")


def pat_starts(ip, st, r, p):
    """yields (state, rest or None)"""
    if p[0] == "lit":
        yield from ropes.starts_with(st, r, p[1])
        return
    if p[0] == "cls":
        for s, sp in ropes.split_first(st, r):
            if sp is None:
                yield s, None
            else:
                for s2, v in decide(s, B("chin", sp[0], p[1])):
                    yield s2, s2.norm(sp[1]) if v else None
        return
    yield from rope_prefix(st, r, p[1])


def rope_prefix(st, r, q):
    """does r start with the rope q; yields (state, rest or None)"""
    r, q = st.norm(r), st.norm(q)
    if not q.s:
        yield st, r
        return
    if q.lit() is not None:
        yield from ropes.starts_with(st, r, q.lit())
        return
    x, y = r.s[0] if r.s else None, q.s[0]
    if x is not None and x == y:
        yield from rope_prefix(st, Rope(r.s[1:]), Rope(q.s[1:]))
        return
    if isinstance(y, str):
        for s, rest in ropes.starts_with(st, r, y):
            if rest is None:
                yield s, None
            else:
                yield from rope_prefix(s, rest, Rope(q.s[1:]))
        return
    if isinstance(x, str) and isinstance(y, Sy):
        # the prefix is a symbol: it is one of the beginnings of r, or something else
        lit = r.lit()
        yy = st.syms[y.id]
        if lit is not None and len(lit) <= 40:
            for n in range(len(lit) + 1):
                def pick(s, n=n):
                    bind(s, y.id, R(lit[:n]))
                    return R(lit[n:])
                for s, rest in branches(st, pick):
                    yield from rope_prefix(s, rest, Rope(q.s[1:]))
            s = st.clone()
            s.fact(B("starts", r, Rope(q.s[:1])), False)
            yield s, None
            return
    if isinstance(y, Cs):
        for s, sp in ropes.split_first(st, r):
            if sp is None:
                yield s, None
            else:
                for s2, e in ropes.ch_eq(s, sp[0], ChS(y.id)):
                    if e:
                        yield from rope_prefix(s2, sp[1], Rope(q.s[1:]))
                    else:
                        yield s2, None
        return
    if isinstance(x, Sy) and isinstance(y, Sy) and len(q.s) == 1 and st.syms[x.id].bind is None:
        ax, ay = st.syms[x.id], st.syms[y.id]
        for f, v in st.facts:
            if f == B("starts", r, q):
                yield st, None
                return
        if ax.cs & ay.cs or ay.lo == 0:
            if x.id not in reach_syms(st, q):
                def yes(s):
                    t = sub(s, x.id, x.id, lo=0)
                    bind(s, x.id, Rope((y, Sy(t))))
                    return s.norm(Rope((Sy(t),) + r.s[1:]))
                yield from branches(st, yes)
        s = st.clone()
        s.fact(B("starts", r, q), False)
        # whether y is longer than x is not tracked
        if len(r.s) > 1:
            s.fact(B("app", T("prefix", r, q)), False)
        yield s, None
        return
    if not r.s:
        if any(st.seg_min(x) > 0 for x in q.s):
            yield st, None
            return
        for s, e in ropes.is_empty(st, q):
            yield s, (Rope(()) if e else None)
        return
    raise Abandon("prefix %r of %r" % (q, r))


def reach_syms(st, r):
    return {x.id for x in r.s if isinstance(x, (Sy, Hm, Cs))}


def pat_ends(ip, st, r, p):
    """yields (state, rest or None)"""
    r = st.norm(r)
    if p[0] == "cls":
        for s, sp in split_last(st, r):
            if sp is None:
                yield s, None
            else:
                for s2, v in decide(s, B("chin", sp[1], p[1])):
                    yield s2, s2.norm(sp[0]) if v else None
        return
    if p[0] == "lit":
        if not p[1]:
            yield st, r
            return
        last = p[1][-1]
        if r.s and not isinstance(r.s[-1], str):
            x = r.s[-1]
            if not (st.seg_cs(x) >> atom_of(ord(last))) & 1 and st.seg_min(x) > 0:
                yield st, None
                return
        for s, sp in split_last(st, r):
            if sp is None:
                yield s, None
            else:
                for s2, e in ropes.ch_eq(s, sp[1], ord(last)):
                    if e:
                        yield from pat_ends(ip, s2, sp[0], ("lit", p[1][:-1]))
                    else:
                        yield s2, None
        return
    a, b = list(r.s), list(st.norm(p[1]).s)
    while a and b:
        if isinstance(a[-1], str) and isinstance(b[-1], str):
            k = 0
            while k < min(len(a[-1]), len(b[-1])) and a[-1][-1 - k] == b[-1][-1 - k]:
                k += 1
            x, y = a[-1][:len(a[-1]) - k], b[-1][:len(b[-1]) - k]
            if x and y:
                yield st, None
                return
            a[-1:], b[-1:] = [x] if x else [], [y] if y else []
        elif a[-1] == b[-1]:
            a.pop()
            b.pop()
        else:
            break
    if not b:
        yield st, mk_rope(a)
        return
    if not a and not any(st.seg_min(x) == 0 for x in b):
        yield st, None
        return
    if len(b) == 1 and isinstance(b[0], str):
        yield from pat_ends(ip, st, mk_rope(a), ("lit", b[0]))
        return
    raise Abandon("suffix")


# ------------------------------------------------------------------ String
SN = "std::string::String::"
ST = "std::str::<impl str>::"


@path(SN + "new", SN + "with_capacity")
def s_new(ip, st, a, I, ctx):
    return EMPTY


@path(SN + "push")
def s_push(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    ip.write_path(st, m.c, m.p, cat(ip.read_path(st, m.c, m.p), ch_rope(st, a[1])))


@path(SN + "push_str")
def s_push_str(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    ip.write_path(st, m.c, m.p, cat(ip.read_path(st, m.c, m.p), text(ip, st, a[1])))


@path(SN + "insert", SN + "insert_str")
def s_insert(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    r = ip.read_path(st, m.c, m.p)
    ins = ch_rope(st, a[2]) if I["path"].endswith("insert") else text(ip, st, a[2])
    for s, c in ropes.cut(st, r, a[1]):
        if c is None:
            yield s, Panic("assertion failed: self.is_char_boundary(idx)", ip.where(ctx))
        else:
            ip.write_path(s, m.c, m.p, cat(c[0], ins, c[1]))
            yield s, UNIT


@path(SN + "clear")
def s_clear(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    ip.write_path(st, m.c, m.p, EMPTY)


@path(SN + "truncate")
def s_truncate(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    r = ip.read_path(st, m.c, m.p)
    for s0, big in decide(st, B("le", lin_add(st.rlen(r), a[1], -1))):
        if big:
            yield s0, UNIT
            continue
        for s, c in ropes.cut(s0, r, a[1]):
            if c is None:
                yield s, Panic("assertion failed: self.is_char_boundary(new_len)", ip.where(ctx))
            else:
                ip.write_path(s, m.c, m.p, c[0])
                yield s, UNIT


@path(SN + "pop")
def s_pop(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    for s, sp in split_last(st, ip.read_path(st, m.c, m.p)):
        if sp is None:
            yield s, NONE
        else:
            ip.write_path(s, m.c, m.p, sp[0])
            yield s, some(sp[1])


@path(SN + "split_off")
def s_split_off(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    for s, c in ropes.cut(st, ip.read_path(st, m.c, m.p), a[1]):
        if c is None:
            yield s, Panic("split_off", ip.where(ctx))
        else:
            ip.write_path(s, m.c, m.p, c[0])
            yield s, c[1]


@path(SN + "remove")
def s_remove(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    for s, c in ropes.cut(st, ip.read_path(st, m.c, m.p), a[1]):
        if c is None:
            yield s, Panic("remove", ip.where(ctx))
            continue
        for s2, sp in ropes.split_first(s, c[1]):
            if sp is None:
                yield s2, Panic("cannot remove a char from the end of a string", ip.where(ctx))
            else:
                ip.write_path(s2, m.c, m.p, cat(c[0], sp[1]))
                yield s2, sp[0]


@path(SN + "retain")
def s_retain(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    b = ip.pred_bits(st, a[1], ctx)
    r = st.norm(ip.read_path(st, m.c, m.p))
    dr = tuple((x, "") for x in range(NATOM) if not (b >> x) & 1)
    ip.write_path(st, m.c, m.p, st.hom(r, dr))


@path(SN + "replace_range")
def s_replace_range(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    r = ip.read_path(st, m.c, m.p)
    ins = text(ip, st, a[2])
    for s, c in get_range(ip, st, r, a[1]):
        if c is None:
            yield s, Panic("replace_range", ip.where(ctx))
        else:
            ip.write_path(s, m.c, m.p, cat(c[0], ins, c[2]))
            yield s, UNIT


@path(SN + "drain")
def s_drain(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    r = ip.read_path(st, m.c, m.p)
    for s, c in get_range(ip, st, r, a[1]):
        if c is None:
            yield s, Panic("drain", ip.where(ctx))
        else:
            ip.write_path(s, m.c, m.p, cat(c[0], c[2]))
            yield s, N("chars", c[1])


@path(SN + "as_str", SN + "as_mut_str", SN + "into_bytes", ST + "as_bytes", SN + "as_bytes", ST + "to_string",
      ST + "into_string", ST + "as_ptr", ST + "as_str")
def s_as_str(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    return Bytes(r) if I["path"].endswith("bytes") else r


@path(SN + "len", ST + "len")
def s_len(ip, st, a, I, ctx):
    return st.rlen(text(ip, st, a[0]))


@path(SN + "capacity")
def s_cap(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    i = mk_lin(0, {st.fresh("cap", kind="i", lo=0, df=T("capacity", r)): 1})
    st.fact(B("le", lin_add(st.rlen(r), i, -1)), True)
    return i


@path(SN + "is_empty", ST + "is_empty")
def s_is_empty(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    if not r.s:
        return True
    if any(st.seg_min(x) > 0 for x in r.s):
        return False
    return ropes.is_empty(st, r)


@trait("std::ops::Add::add")
@sel
def t_add(ip, I, s, k, base):
    if k == "std::string::String":
        return lambda ip, st, a, I, ctx: cat(text(ip, st, a[0]), text(ip, st, a[1]))
    if k == "int":
        return lambda ip, st, a, I, ctx: lin_add(val(ip, st, a[0]), val(ip, st, a[1]))
    return None


@trait("std::ops::AddAssign::add_assign")
@sel
def t_add_assign(ip, I, s, k, base):
    if k == "std::string::String":
        return lambda ip, st, a, I, ctx: setv(ip, st, a[0], cat(text(ip, st, a[0]), text(ip, st, a[1])))
    if k == "int":
        return lambda ip, st, a, I, ctx: setv(ip, st, a[0], lin_add(val(ip, st, a[0]), val(ip, st, a[1])))
    return None


# ------------------------------------------------------------------ str
def occurs(r, p):
    """the segments of p are found in r"""
    a, b = r.s, p.s
    if not b:
        return True
    for i in range(len(a) - len(b) + 1):
        for k in range(len(b)):
            x, y = a[i + k], b[k]
            if isinstance(x, str) and isinstance(y, str):
                if not (y in x if len(b) == 1 else x.endswith(y) if k == 0 else x.startswith(y) if k == len(b) - 1 else x == y):
                    break
            elif x != y:
                break
        else:
            return True
    return False


@path(ST + "contains")
def str_contains(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    p = pattern(ip, st, a[1], ctx)
    if p[0] == "lit":
        yield from ropes.contains(st, r, p[1])
        return
    if p[0] == "cls":
        for s, (pre, rest) in ropes.take_while(st, r, ALL & ~p[1]):
            yield s, bool(s.norm(rest).s)
        return
    q = st.norm(p[1]).s
    l = st.norm(r).lit()
    if l is not None and len(q) == 1 and isinstance(q[0], Cs):
        both = st.syms[q[0].id].cs
        l = "".join(c for c in l if (both >> atom_of(ord(c))) & 1)
        if all(is_single(atom_of(ord(c))) for c in l):
            yield from decide(st, B("chin", ChS(q[0].id), bits(l)))
            return
    for i in range(len(r.s) - len(q) + 1):
        if r.s[i:i + len(q)] == q:
            yield st, True
            return
    if occurs(r, st.norm(p[1])):
        yield st, True
        return
    yield from decide(st, B("contains", r, p[1]))


@path(ST + "starts_with")
def str_starts_with(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    for s, x in pat_starts(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, x is not None


@path(ST + "ends_with")
def str_ends_with(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    for s, x in pat_ends(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, x is not None


@path(ST + "strip_prefix")
def str_strip_prefix(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    for s, x in pat_starts(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, NONE if x is None else some(x)


@path(ST + "strip_suffix")
def str_strip_suffix(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    for s, x in pat_ends(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, NONE if x is None else some(x)


@path(ST + "find")
def str_find(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    for s, f in pat_find(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, NONE if f is None else some(s.rlen(f[0]))


@path(ST + "rfind")
def str_rfind(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    for s, f in pat_rfind(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, NONE if f is None else some(s.rlen(f[0]))


@path(ST + "split_once", ST + "rsplit_once")
def str_split_once(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    fn = pat_rfind if I["path"].split("::<")[-2].endswith("rsplit_once") or "rsplit_once" in I["path"] else pat_find
    for s, f in fn(ip, st, r, pattern(ip, st, a[1], ctx)):
        yield s, NONE if f is None else some(tup(f[0], f[2]))


def replace_all(ip, st, r, p, to, n=0):
    """yields (state, rope)"""
    r = st.norm(r)
    tl = to.lit()
    if p[0] == "lit" and len(p[1]) == 1 and is_single(atom_of(ord(p[1]))) and tl is not None:
        yield from hom_split(st, r, ((atom_of(ord(p[1])), tl),))
        return
    if p[0] == "cls" and tl is not None:
        yield from hom_split(st, r, tuple((x, tl) for x in atoms(p[1])))
        return
    if r.lit() is not None and p[0] == "lit" and tl is not None:
        yield st, R(r.lit().replace(p[1], tl))
        return
    if p[0] == "lit" and (not p[1] or not ropes.may_contain(st, r, p[1])):
        if not p[1]:
            raise Abandon("replacing the empty text")
        yield st, r
        return
    if n > 6:
        raise Abandon("replacing a text of several characters any number of times")
    for s, f in pat_find(ip, st, r, p):
        if f is None:
            yield s, s.norm(r)
        else:
            for s2, rest in replace_all(ip, s, f[2], p, to, n + 1):
                yield s2, cat(s2.norm(f[0]), to, rest)


def hom_split(st, r, m):
    """characterwise substitution, after deciding which kind of character each single one is"""
    d = dict(m)
    r = st.norm(r)
    for x in r.s:
        if isinstance(x, Cs):
            cs = st.syms[x.id].cs
            hit = [a for a in atoms(cs) if a in d]
            if hit and (len(hit) < bin(cs).count("1") or len({d[a] for a in hit}) > 1):
                parts = [cs & ~sum(1 << a for a in hit)] + [1 << a for a in hit]
                fs = []
                for g in parts:
                    if g:
                        fs.append(lambda s, g=g: restrict(s, x.id, g))
                for s, _ in branches(st, *fs):
                    yield from hom_split(s, r, m)
                return
    yield st, st.hom(r, m)


@path(ST + "replace")
def str_replace(ip, st, a, I, ctx):
    yield from replace_all(ip, st, text(ip, st, a[0]), pattern(ip, st, a[1], ctx), text(ip, st, a[2]))


@path(ST + "replacen")
def str_replacen(ip, st, a, I, ctx):
    def go(s, r, k):
        if k == 0:
            yield s, r
            return
        for s2, f in pat_find(ip, s, r, p):
            if f is None:
                yield s2, s2.norm(r)
            else:
                for s3, rest in go(s2, f[2], k - 1):
                    yield s3, cat(s3.norm(f[0]), text(ip, s3, a[2]), rest)
    p = pattern(ip, st, a[1], ctx)
    yield from go(st, text(ip, st, a[0]), a[3])


@path(ST + "chars")
def str_chars(ip, st, a, I, ctx):
    return N("chars", text(ip, st, a[0]))


@path(ST + "char_indices")
def str_char_indices(ip, st, a, I, ctx):
    return N("charidx", text(ip, st, a[0]), 0)


@path(ST + "bytes")
def str_bytes(ip, st, a, I, ctx):
    return N("bytes", text(ip, st, a[0]))


@path(ST + "lines")
def str_lines(ip, st, a, I, ctx):
    return N("lines", text(ip, st, a[0]))


@path(ST + "split", ST + "split_inclusive", ST + "split_terminator", ST + "rsplit", ST + "splitn", ST + "matches",
      ST + "match_indices", ST + "split_whitespace", ST + "split_ascii_whitespace")
def str_split(ip, st, a, I, ctx):
    m = norm_path(I["path"]).split("::")[-1]
    if m == "splitn":
        return N("split", text(ip, st, a[0]), pattern(ip, st, a[2], ctx), "split", st.nint(a[1]), 0)
    if m in ("split_whitespace", "split_ascii_whitespace"):
        return N("split", text(ip, st, a[0]), ("cls", bits(WS)), "words", None, 0)
    return N("split", text(ip, st, a[0]), pattern(ip, st, a[1], ctx), m, None, 0)


TRIM = {"trim": (1, 1), "trim_start": (1, 0), "trim_end": (0, 1), "trim_left": (1, 0), "trim_right": (0, 1),
        "trim_matches": (1, 1), "trim_start_matches": (1, 0), "trim_end_matches": (0, 1), "trim_left_matches": (1, 0),
        "trim_right_matches": (0, 1)}


@path(*[ST + m for m in TRIM])
def str_trim(ip, st, a, I, ctx):
    m = norm_path(I["path"]).split("::")[-1]
    r = text(ip, st, a[0])
    front, back = TRIM[m]
    if m.endswith("matches"):
        p = pattern(ip, st, a[1], ctx)
        if p[0] == "lit" and len(p[1]) == 1 and is_single(atom_of(ord(p[1]))):
            p = ("cls", bits(p[1]))
        if p[0] != "cls":
            raise Abandon("trimming a longer text")
        cs = p[1]
    else:
        cs = bits(WS)
    if front:
        for s, (pre, rest) in ropes.take_while(st, r, cs):
            if back:
                for s2, (x, _) in rtake_while(s, rest, cs):
                    yield s2, x
            else:
                yield s, rest
    else:
        for s2, (x, _) in rtake_while(st, r, cs):
            yield s2, x


def case_rope(st, r, up, ascii_only):
    r = st.norm(r)
    lit = r.lit()
    if lit is not None:
        if ascii_only:
            return R("".join((c.upper() if up else c.lower()) if ord(c) < 128 else c for c in lit))
        return R(lit.upper() if up else lit.lower())
    if not ascii_only:
        for x in r.s:
            if st.seg_cs(x) & NONASCII:
                return mk_rope([Ap(T("upper" if up else "lower", r), ALL, 0, BIG)])
    m = tuple((i, chr(i).upper() if up else chr(i).lower()) for i in range(128) if (chr(i).upper() if up else chr(i).lower()) != chr(i))
    return hom_chars(st, r, m)


def hom_chars(st, r, m):
    """substitution that also copes with undetermined single characters"""
    out = []
    d = dict(m)
    for x in st.norm(r).s:
        if isinstance(x, Cs):
            cs = st.syms[x.id].cs
            if any((cs >> a) & 1 for a in d):
                return mk_rope([Ap(T("map", r, m), ALL, 0, BIG)])
            out.append(x)
        elif isinstance(x, Ap) and any((x.cs >> a) & 1 for a in d):
            cs = x.cs
            for a in d:
                if (cs >> a) & 1:
                    cs = cs & ~(1 << a) | bits(d[a])
            out.append(Ap(T("map", x.t, m), cs, x.lo, x.hi))
        else:
            out.extend(st.hom(Rope((x,)), m).s)
    return mk_rope(out)


@path(ST + "to_lowercase", ST + "to_uppercase", ST + "to_ascii_lowercase", ST + "to_ascii_uppercase")
def str_case(ip, st, a, I, ctx):
    return case_rope(st, text(ip, st, a[0]), "upper" in I["path"], "ascii" in I["path"])


@path(ST + "make_ascii_lowercase", ST + "make_ascii_uppercase")
def str_make_case(ip, st, a, I, ctx):
    setv(ip, st, a[0], case_rope(st, text(ip, st, a[0]), "upper" in I["path"], True))


def eq_nocase(st, a, b):
    """yields (state, bool)"""
    a, b = st.norm(a), st.norm(b)
    if a == b:
        yield st, True
        return
    la, lb = a.lit(), b.lit()
    low = lambda t: "".join(c.lower() if ord(c) < 128 else c for c in t)
    if la is not None and lb is not None:
        yield st, low(la) == low(lb)
        return
    if la is not None:
        a, b, la, lb = b, a, lb, la
    if lb is not None:
        yield from eq_nocase_lit(st, a, low(lb))
        return
    yield from decide(st, B("app", T("eqci", a, b)))


def ci_bits(c):
    b = bits(c)
    if ord(c) < 128 and c.isalpha():
        b |= bits(c.swapcase())
    return b


def eq_nocase_lit(st, a, l):
    a = st.norm(a)
    if not a.s or not l:
        if not a.s and not l:
            yield st, True
        elif not a.s:
            yield st, False
        else:
            yield from ropes.is_empty(st, a)
        return
    if len(a.s) == 1 and isinstance(a.s[0], Sy):
        x = a.s[0]
        y = st.syms[x.id]
        if l in y.avoid_ci or len(l.encode()) > y.hi or len(l.encode()) < y.lo or any(not y.cs & ci_bits(c) for c in l):
            yield st, False
            return

        def yes(s):
            segs = []
            for c in l:
                cs = ci_bits(c) & y.cs
                k = s.fresh("c", kind="c", cs=cs, root=y.root or x.id, depth=y.depth + 1)
                segs.append(Cs(k))
            s.syms[x.id] = s.syms[x.id]
            bind(s, x.id, Rope(tuple(segs)))
            for k in segs:
                bind_single(s, k.id)
            return True

        def no(s):
            z = s.syms[x.id]
            s.syms[x.id] = z.but(avoid_ci=z.avoid_ci | {l})
            return False
        yield from branches(st, yes, no)
        return
    for s, rest in starts_nocase(st, a, l):
        if rest is None:
            yield s, False
        else:
            yield from ropes.is_empty(s, rest)


def starts_nocase(st, r, l):
    """case insensitive prefix (ASCII literal); yields (state, rest or None)"""
    r = st.norm(r)
    if not l:
        yield st, r
        return
    neg = B("startsci", r, R(l))
    if any(f == neg and not v for f, v in st.facts):
        yield st, None
        return
    pats = []          # (bindings: (segment, characters, continues), rest segments)

    def go(i, rest, acc):
        if len(pats) > 12:
            raise Abandon("too many ways to match a text")
        if not rest:
            pats.append((acc, mk_rope(r.s[i:])))
            return
        if i == len(r.s):
            return
        x = r.s[i]
        if isinstance(x, str):
            n = min(len(x), len(rest))
            if all((ci_bits(rest[j]) >> atom_of(ord(x[j]))) & 1 for j in range(n)):
                if n == len(x):
                    go(i + 1, rest[n:], acc)
                else:
                    pats.append((acc, mk_rope([x[n:]] + list(r.s[i + 1:]))))
            return
        if isinstance(x, Ap):
            if x.lo > 0 and x.cs & ci_bits(rest[0]) == 0:
                return
            raise Abandon("comparison of an opaque text %r with %r" % (x, rest))
        if isinstance(x, Cs):
            cs = st.syms[x.id].cs
            if cs & ci_bits(rest[0]):
                go(i + 1, rest[1:], acc + ((x, rest[0], False),) if cs & ~ci_bits(rest[0]) else acc)
            return
        y = st.syms[x.id]
        d = dict(x.m) if isinstance(x, Hm) else {}
        if any((bits(im) if im else ALL) & ci_bits(c) for im in d.values() for c in rest):
            raise Abandon("prefix of a substituted text")
        n = 0
        while True:
            if n == len(rest):
                pats.append((acc + ((x, rest, True),), mk_rope(r.s[i + 1:])))
                return
            if n >= y.lo and rest[:n].lower() not in y.avoid_ci:
                go(i + 1, rest[n:], acc + ((x, rest[:n], False),))
            if n + 1 > y.hi or not y.cs & ci_bits(rest[n]) & ~sum(1 << a for a in d):
                return
            n += 1
    go(0, l, ())
    if len(pats) == 1 and not pats[0][0]:
        yield st, pats[0][1]
        return
    for acc, rest in pats:
        s = st.clone()
        try:
            tail = None
            for x, cs, cont in acc:
                if isinstance(x, Cs):
                    restrict(s, x.id, ci_bits(cs))
                    continue
                y = s.syms[x.id]
                if y.bind is not None:
                    raise Abandon("symbol occurs twice")
                segs = []
                for c in cs:
                    k = s.fresh("c", kind="c", cs=ci_bits(c) & y.cs, root=y.root or x.id, depth=y.depth + 1)
                    segs.append(Cs(k))
                if cont:
                    t = ropes.sub(s, x.id, x.id, lo=max(0, y.lo - len(cs)), hi=max(0, y.hi - len(cs)) if y.hi < BIG else BIG)
                    tail = Hm(t, x.m) if isinstance(x, Hm) else Sy(t)
                    bind(s, x.id, Rope(tuple(segs) + (Sy(t),)))
                else:
                    bind(s, x.id, Rope(tuple(segs)))
                for k in segs:
                    bind_single(s, k.id)
        except Infeasible:
            continue
        yield s, s.norm(mk_rope(([tail] if tail is not None else []) + list(rest.s)))
    if not pats:
        yield st, None
        return
    s = st.clone()
    if len(pats) == 1 and len(pats[0][0]) == 1 and isinstance(pats[0][0][0][0], Cs):
        try:
            restrict(s, pats[0][0][0][0].id, ALL & ~ci_bits(pats[0][0][0][1]))
        except Infeasible:
            return
    else:
        s.fact(neg, False)
    yield s, None


@path(ST + "eq_ignore_ascii_case")
def str_eq_ci(ip, st, a, I, ctx):
    yield from eq_nocase(st, text(ip, st, a[0]), text(ip, st, a[1]))


@path(ST + "split_at", ST + "split_at_checked")
def str_split_at(ip, st, a, I, ctx):
    chk = I["path"].endswith("checked")
    for s, c in ropes.cut(st, text(ip, st, a[0]), a[1]):
        if c is None:
            yield s, NONE if chk else Panic("failed to slice string", ip.where(ctx))
        else:
            yield s, some(tup(c[0], c[1])) if chk else tup(c[0], c[1])


@path(ST + "is_char_boundary")
def str_is_cb(ip, st, a, I, ctx):
    for s, c in ropes.cut(st, text(ip, st, a[0]), a[1]):
        yield s, c is not None


@path(ST + "floor_char_boundary", ST + "ceil_char_boundary")
def str_near_cb(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    n = st.rlen(r)
    d = 1 if "ceil" in I["path"] else -1

    def go(s, i, left):
        for s2, c in ropes.cut(s, r, i):
            if c is not None:
                yield s2, i
            elif left:
                yield from go(s2, s2.nint(lin_add(i, d)) if not isinstance(i, int) else i + d, left - 1)
    for s0, past in decide(st, B("le", lin_add(n, a[1], -1))):
        if past:
            yield s0, n
        else:
            yield from go(s0, s0.nint(a[1]), 3)


@path(ST + "trim_ascii", ST + "trim_ascii_start", ST + "trim_ascii_end")
def str_trim_ascii(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    cs = bits(" \t\n\r\x0c")
    for s, (pre, rest) in ropes.take_while(st, r, cs) if not I["path"].endswith("_end") else [(st, (None, r))]:
        if I["path"].endswith("_start"):
            yield s, rest
        else:
            for s2, (x, _) in rtake_while(s, rest, cs):
                yield s2, x


def range_of(ip, st, v):
    """(lo, hi, kind) of a range value; None for open ends"""
    p = ip.p.types[v.ty]["path"] if isinstance(v, A) and v.ty is not None else None
    if p is None and isinstance(v, N) and v.k == "range":
        return v.f[0], lin_add(v.f[1], 1) if v.f[2] else v.f[1]
    if p is None:
        raise Abandon("range %r" % (v,))
    n = p.split("::")[-1]
    if n == "Range":
        return v.f[0], v.f[1]
    if n == "RangeTo":
        return None, v.f[0]
    if n == "RangeFrom":
        return v.f[0], None
    if n == "RangeFull":
        return None, None
    if n == "RangeInclusive":
        return v.f[0], lin_add(v.f[1], 1)
    if n == "RangeToInclusive":
        return None, lin_add(v.f[0], 1)
    raise Abandon("range " + p)


def get_range(ip, st, r, rng):
    """yields (state, None) or (state, (before, inside, after))"""
    lo, hi = range_of(ip, st, rng)
    r = st.norm(r)
    if lo is None:
        lo = 0
    for s, c in ropes.cut(st, r, lo):
        if c is None:
            yield s, None
        elif hi is None:
            yield s, (c[0], c[1], EMPTY)
        else:
            for s2, ok_ in decide(s, B("le", lin_add(lo, hi, -1))):
                if not ok_:
                    yield s2, None
                    continue
                for s3, c2 in ropes.cut(s2, s2.norm(c[1]), s2.nint(lin_add(hi, lo, -1))):
                    if c2 is None:
                        yield s3, None
                    else:
                        yield s3, (s3.norm(c[0]), c2[0], c2[1])


@path(ST + "get", ST + "get_unchecked")
def str_get(ip, st, a, I, ctx):
    un = I["path"].split("::<")[0].endswith("unchecked") or "get_unchecked" in I["path"]
    for s, c in get_range(ip, st, text(ip, st, a[0]), val(ip, st, a[1])):
        if un:
            yield s, Panic("unchecked slice out of bounds", ip.where(ctx)) if c is None else c[1]
        else:
            yield s, NONE if c is None else some(c[1])


def str_index(ip, st, a, I, ctx):
    for s, c in get_range(ip, st, text(ip, st, a[0]), val(ip, st, a[1])):
        yield s, Panic("string slice index out of range or not a char boundary", ip.where(ctx)) if c is None else c[1]


P["std::str::traits::<impl std::ops::Index<I> for str>::index"] = str_index
P["std::string::<impl std::ops::Index<I> for std::string::String>::index"] = str_index
P["<std::string::String as std::ops::Index<I>>::index"] = str_index


@path(ST + "repeat")
def str_repeat(ip, st, a, I, ctx):
    n = st.nint(a[1])
    if not isinstance(n, int):
        raise Abandon("repeat")
    return cat(*[text(ip, st, a[0])] * n)


@path(ST + "is_ascii")
def str_is_ascii(ip, st, a, I, ctx):
    for s, (pre, rest) in ropes.take_while(st, text(ip, st, a[0]), ASCII_ATOMS):
        yield s, not s.norm(rest).s


@path("std::str::from_utf8", SN + "from_utf8", SN + "from_utf8_lossy", "std::str::from_utf8_unchecked", SN + "from_utf8_unchecked")
def from_utf8(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if isinstance(v, Bytes):
        r = v.r
    elif isinstance(v, Seq) and all(isinstance(x, int) for x in v.e):
        try:
            r = R(bytes(v.e).decode())
        except UnicodeDecodeError:
            return err(T("utf8error"))
    elif isinstance(v, Rope):
        r = v
    else:
        raise Abandon("bytes to text")
    if "unchecked" in I["path"]:
        return r
    if "lossy" in I["path"]:
        return A(None, 0, (r,))
    return ok(r)


# ------------------------------------------------------------------ integers from text
def parse_int(ip, st, r, mn, mx):
    """yields (state, int/Lin or None)"""
    r = st.norm(r)
    lit = r.lit()
    if lit is not None:
        t = lit
        body = t[1:] if t[:1] == "+" or (t[:1] == "-" and mn < 0) else t
        if body and all(c in "0123456789" for c in body):
            v = int(t)
            yield st, v if mn <= v <= mx else None
        else:
            yield st, None
        return
    segs = r.s
    if len(segs) == 1 and isinstance(segs[0], Ap) and segs[0].t.op == "dec":
        v = st.nint(segs[0].t.a[0])
        for s, lo in decide(st, ip.compare(st, "Lt", v, mn)):
            if lo:
                yield s, None
            else:
                for s2, hi in decide(s, ip.compare(s, "Gt", v, mx)):
                    yield s2, None if hi else v
        return
    bad = ~(DIGITS | bits("+-")) & ALL
    for x in segs:
        cs = st.seg_cs(x)
        if cs & ~bad == 0 and st.seg_min(x) > 0 or isinstance(x, str) and cs & bad:
            yield st, None
            return
    if not any(st.seg_cs(x) & DIGITS for x in segs):
        yield st, None
        return
    sign = "+-" if mn < 0 else "+"
    before = 0
    for x in segs:
        cs = st.seg_cs(x)
        if isinstance(x, str):
            if any(c not in "0123456789" and (before or i or c not in sign) for i, c in enumerate(x)):
                yield st, None
                return
        elif before and cs & DIGITS == 0 and st.seg_min(x) > 0:
            yield st, None
            return
        before += st.seg_min(x)
    x = segs[0]
    if isinstance(x, Sy) and st.seg_cs(x) & DIGITS == 0:
        # a text without digits can only be a sign
        work = [st]
        for t in ("",) + tuple(sign):
            nxt_ = []
            for s0 in work:
                for s, v in ropes.rope_eq(s0, Rope((x,)), R(t)):
                    if v:
                        yield from parse_int(ip, s, mk_rope((t,) + segs[1:]), mn, mx)
                    else:
                        nxt_.append(s)
            work = nxt_
        for s in work:
            yield s, None
        return
    if isinstance(x, str) and len(segs) == 2 and isinstance(segs[1], Ap) and segs[1].t.op == "dec" and x.lstrip("+").strip("0") == "" and x.count("+") <= 1:
        v = st.nint(segs[1].t.a[0])
        if st.irange(v)[0] >= 0:
            for s2, hi in decide(st, ip.compare(st, "Gt", v, mx)):
                yield s2, None if hi else v
            return
    for f, v in st.facts:
        if f.op == "isint" and f.a[:3] == (r, mn, mx):
            yield st, mk_lin(0, {f.a[3]: 1}) if v else None
            return
    s = st.clone()
    s.fact(B("app", T("isint", r, mn, mx)), False)
    yield s, None
    s = st.clone()
    i = s.fresh("parsed", kind="i", lo=mn, hi=mx, df=T("parsed", r))
    s.fact(B("isint", r, mn, mx, i), True)
    yield s, mk_lin(0, {i: 1})


@trait("std::str::FromStr::from_str")
@sel
def t_from_str(ip, I, s, k, base):
    if k == "int":
        bits_, signed = ip.int_info(s)
        mn, mx = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if signed else (0, (1 << bits_) - 1)

        def f(ip, st, a, I, ctx):
            for s2, v in parse_int(ip, st, text(ip, st, a[0]), mn, mx):
                yield s2, err(T("ParseIntError")) if v is None else ok(v)
        return f
    if k == "std::string::String":
        return lambda ip, st, a, I, ctx: ok(text(ip, st, a[0]))
    if k == "bool":
        def g(ip, st, a, I, ctx):
            for s2, t in ropes.rope_eq(st, text(ip, st, a[0]), R("true")):
                if t:
                    yield s2, ok(True)
                else:
                    for s3, f in ropes.rope_eq(s2, text(ip, s2, a[0]), R("false")):
                        yield s3, ok(False) if f else err(T("ParseBoolError"))
        return g
    return None


# ------------------------------------------------------------------ char
CH = "std::char::methods::<impl char>::"


def cls_of(f):
    """class of a predicate on characters: (certain, possible)"""
    b = 0
    for i, c in enumerate(ATOM_REPR):
        if f(c):
            b |= 1 << i
    return b


CHP = {
    "is_whitespace": cls_of(lambda c: c in WS),
    "is_alphanumeric": cls_of(lambda c: c.isalnum()),
    "is_ascii": ASCII_ATOMS,
    "is_ascii_alphabetic": UPPER | LOWER,
    "is_ascii_digit": DIGITS,
    "is_ascii_alphanumeric": ALNUM,
    "is_ascii_uppercase": UPPER,
    "is_ascii_lowercase": LOWER,
    "is_ascii_whitespace": bits("\t\n\x0c\r "),
    "is_ascii_punctuation": cls_of(lambda c: ord(c) < 128 and 33 <= ord(c) <= 126 and not c.isalnum()),
    "is_ascii_graphic": cls_of(lambda c: 33 <= ord(c) <= 126),
    "is_ascii_control": cls_of(lambda c: ord(c) < 32 or ord(c) == 127),
    "is_ascii_hexdigit": bits("0123456789abcdefABCDEF"),
    "is_control": cls_of(lambda c: ord(c) < 32 or 127 <= ord(c) <= 0x9f),
}
# not decided by the class for some characters outside ASCII
CHQ = {
    "is_alphabetic": (UPPER | LOWER, cls_of(lambda c: ord(c) >= 128 and c.isalnum())),
    "is_numeric": (DIGITS, cls_of(lambda c: ord(c) >= 128 and c.isalnum())),
    "is_uppercase": (UPPER, cls_of(lambda c: ord(c) >= 128 and c.isalnum())),
    "is_lowercase": (LOWER, cls_of(lambda c: ord(c) >= 128 and c.isalnum())),
}


def _mk_pred(m, b, q=0):
    def f(ip, st, a, I, ctx):
        c = resolve_ch(st, val(ip, st, a[0]))
        if isinstance(c, int):
            if q and c >= 128:
                t = chr(c)
                return {"is_alphabetic": t.isalpha(), "is_numeric": t.isnumeric(), "is_uppercase": t.isupper(), "is_lowercase": t.islower()}[m]
            return bool((b >> atom_of(c)) & 1)
        if q and st.syms[c.id].cs & q:
            def g():
                for s, v in decide(st, B("chin", c, q)):
                    if v:
                        yield from decide(s, B("app", T(m, c.id)))
                    else:
                        yield from decide(s, B("chin", c, b))
            return g()
        return B("chin", c, b)
    return f


for _m, _b in CHP.items():
    P[CH + _m] = _mk_pred(_m, _b)
    P["std::num::<impl u8>::" + _m] = P[CH + _m]
for _m, (_b, _q) in CHQ.items():
    P[CH + _m] = _mk_pred(_m, _b, _q)


def ch_split(st, c):
    """yields (state, code point) for a character of few possibilities"""
    c = resolve_ch(st, c)
    if isinstance(c, int):
        yield st, c
        return
    cs = st.syms[c.id].cs
    if bin(cs).count("1") > 60 or any(not is_single(a) for a in atoms(cs)):
        raise Abandon("undetermined character")
    for a in atoms(cs):
        def pick(s, a=a):
            bind_char(s, c.id, ord(ATOM_REPR[a]))
            return ord(ATOM_REPR[a])
        yield from branches(st, pick)


@path(CH + "to_ascii_lowercase", CH + "to_ascii_uppercase", "std::num::<impl u8>::to_ascii_lowercase", "std::num::<impl u8>::to_ascii_uppercase")
def ch_case(ip, st, a, I, ctx):
    up = "upper" in I["path"]
    c = resolve_ch(st, val(ip, st, a[0]))
    if isinstance(c, int):
        t = chr(c)
        yield st, ord(t.upper() if up else t.lower()) if c < 128 else c
        return
    chg = LOWER if up else UPPER
    for s, v in decide(st, B("chin", c, chg)):
        if v:
            for s2, k in ch_split(s, c):
                yield s2, ord(chr(k).swapcase())
        else:
            yield s, resolve_ch(s, c)


@path(CH + "to_lowercase", CH + "to_uppercase")
def ch_fullcase(ip, st, a, I, ctx):
    up = "upper" in I["path"]
    for s, k in ch_split(st, val(ip, st, a[0])):
        t = chr(k).upper() if up else chr(k).lower()
        yield s, N("list", tuple(map(ord, t)))


@path(CH + "eq_ignore_ascii_case")
def ch_eq_ci(ip, st, a, I, ctx):
    x, y = resolve_ch(st, val(ip, st, a[0])), resolve_ch(st, val(ip, st, a[1]))
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int) and is_single(atom_of(y)):
        return ip.compare(st, "Eq", x, y) if isinstance(x, int) and chr(x).lower() != chr(y).lower() else (
            chr(x).lower() == chr(y).lower() if isinstance(x, int) else B("chin", x, ci_bits(chr(y))))
    raise Abandon("comparison of characters")


@path(CH + "len_utf8")
def ch_len(ip, st, a, I, ctx):
    return st.rlen(ch_rope(st, val(ip, st, a[0])))


@path(CH + "to_digit")
def ch_to_digit(ip, st, a, I, ctx):
    rad = st.nint(a[1])
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:rad]
    for s, v in decide(st, B("chin", a[0], bits(ds + ds.upper()))):
        if v:
            for s2, k in ch_split(s, a[0]):
                yield s2, some(int(chr(k), rad))
        else:
            yield s, NONE


@path(CH + "is_digit")
def ch_is_digit(ip, st, a, I, ctx):
    ds = "0123456789abcdefghijklmnopqrstuvwxyz"[:st.nint(a[1])]
    return B("chin", a[0], bits(ds + ds.upper())) if isinstance(a[0], ChS) else chr(a[0]) in ds + ds.upper()


@path(CH + "encode_utf8")
def ch_encode(ip, st, a, I, ctx):
    return ch_rope(st, a[0])


@path("std::char::from_u32", "std::char::methods::from_u32", "std::char::from_digit", "std::char::convert::from_u32",
      CH + "from_u32", CH + "from_digit")
def ch_from_u32(ip, st, a, I, ctx):
    v = st.nint(a[0])
    if isinstance(v, int):
        if "digit" in I["path"]:
            return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[v])) if v < a[1] else NONE
        return some(v) if v < 0xD800 or 0xE000 <= v < 0x110000 else NONE
    raise Abandon("character from a number")
