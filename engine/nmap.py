"""Models of maps, vectors and slices."""
from natives import *
from natives import P, TR
import ropes
from ropes import decide, Infeasible, resolve_ch
from niter import into_it, gather, sort_entries, map_order, nxt, END, is_iter
from nstr import get_range, range_of


# ------------------------------------------------------------------ maps
def map_insert(ip, st, m, k, v, ctx):
    """yields (state, map, old value or None)"""
    for s, i in map_find(ip, st, m, k, ctx):
        if isinstance(i, Panic):
            yield s, i, None
        elif i is None:
            yield s, MapV(m.k, m.e + ((k, v),)), None
        else:
            e = list(m.e)
            old = e[i][1]
            e[i] = (e[i][0], v)
            yield s, MapV(m.k, tuple(e)), old


def both(*names):
    return [b + n for n in names for b in ("std::collections::BTreeMap::", "std::collections::HashMap::")]


def sets(*names):
    return [b + n for n in names for b in ("std::collections::BTreeSet::", "std::collections::HashSet::")]


@path(*both("new"), "std::collections::HashMap::with_capacity", *sets("new"), "std::collections::HashSet::with_capacity",
      "std::collections::HashMap::with_hasher", "std::collections::HashMap::with_capacity_and_hasher")
def m_new(ip, st, a, I, ctx):
    return MapV("b" if "BTree" in I["path"] else "h", ())


@path(*both("len", "is_empty"), *sets("len", "is_empty"))
def m_len(ip, st, a, I, ctx):
    n = len(val(ip, st, a[0]).e)
    return n == 0 if "is_empty" in I["path"] else n


def keyval(ip, st, k):
    v = val(ip, st, k)
    return v


@path(*both("get", "get_key_value"), *sets("get"))
def m_get(ip, st, a, I, ctx):
    m = val(ip, st, a[0])
    for s, i in map_find(ip, st, m, keyval(ip, st, a[1]), ctx):
        if isinstance(i, Panic):
            yield s, i
        elif i is None:
            yield s, NONE
        elif "get_key_value" in I["path"]:
            yield s, some(tup(Ref(m.e[i][0]), Ref(m.e[i][1])))
        else:
            yield s, some(Ref(m.e[i][0 if "Set" in I["path"] else 1]))


@path(*both("contains_key"), *sets("contains"))
def m_contains(ip, st, a, I, ctx):
    m = val(ip, st, a[0])
    for s, i in map_find(ip, st, m, keyval(ip, st, a[1]), ctx):
        yield s, i if isinstance(i, Panic) else i is not None


@path(*both("get_mut"))
def m_get_mut(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)
    for s, i in map_find(ip, st, m, keyval(ip, st, a[1]), ctx):
        if isinstance(i, Panic):
            yield s, i
        else:
            yield s, NONE if i is None else some(Mut(c.c, tuple(c.p) + (("mapv", i),)))


@path(*both("insert"), *sets("insert"))
def m_insert(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)
    isset = "Set" in I["path"]
    for s, m2, old in map_insert(ip, st, m, a[1], UNIT if isset else a[2], ctx):
        if isinstance(m2, Panic):
            yield s, m2
            continue
        ip.write_path(s, c.c, c.p, m2)
        yield s, (old is None) if isset else (NONE if old is None else some(old))


@path(*both("remove", "remove_entry"), *sets("remove", "take"))
def m_remove(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)
    for s, i in map_find(ip, st, m, keyval(ip, st, a[1]), ctx):
        if isinstance(i, Panic):
            yield s, i
            continue
        isset = "Set" in I["path"]
        if i is None:
            yield s, False if isset and "remove" in I["path"] else NONE
            continue
        k, v = m.e[i]
        ip.write_path(s, c.c, c.p, MapV(m.k, m.e[:i] + m.e[i + 1:]))
        if isset:
            yield s, True if "remove" in I["path"] else some(k)
        else:
            yield s, some(tup(k, v)) if "remove_entry" in I["path"] else some(v)


@path(*both("clear"), *sets("clear"))
def m_clear(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    ip.write_path(st, c.c, c.p, MapV(ip.read_path(st, c.c, c.p).k, ()))


@path(*both("append"))
def m_append(ip, st, a, I, ctx):
    from niter import insert_all
    c, d = mutcell(ip, st, a[0]), mutcell(ip, st, a[1])
    m, o = ip.read_path(st, c.c, c.p), ip.read_path(st, d.c, d.p)
    ip.write_path(st, d.c, d.p, MapV(o.k, ()))
    for s, r in insert_all(ip, st, m, list(o.e), ctx):
        if isinstance(r, Panic):
            yield s, r
        else:
            ip.write_path(s, c.c, c.p, r)
            yield s, UNIT


@path(*both("values", "keys", "into_values", "into_keys", "values_mut", "drain"))
def m_values(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("::")[-1]
    if n in ("values_mut", "drain"):
        c = mutcell(ip, st, a[0])
        m = ip.read_path(st, c.c, c.p)
        for s, e in map_order(ip, st, m, ctx):
            if n == "drain":
                ip.write_path(s, c.c, c.p, MapV(m.k, ()))
                yield s, N("list", tuple(tup(k, v) for k, v in e))
            else:
                ip.write_path(s, c.c, c.p, MapV(m.k, e))
                yield s, N("list", tuple(Mut(c.c, tuple(c.p) + (("mapv", i),)) for i in range(len(e))))
        return
    m = val(ip, st, a[0])
    for s, e in map_order(ip, st, m, ctx):
        j = 0 if "keys" in n else 1
        if n.startswith("into"):
            yield s, N("list", tuple(x[j] for x in e))
        else:
            yield s, N("list", tuple(Ref(x[j]) for x in e))


@path("std::collections::BTreeMap::first_key_value", "std::collections::BTreeMap::last_key_value")
def m_first(ip, st, a, I, ctx):
    m = val(ip, st, a[0])
    for s, e in map_order(ip, st, m, ctx):
        if not e:
            yield s, NONE
        else:
            k, v = e[0 if "first" in I["path"] else -1]
            yield s, some(tup(Ref(k), Ref(v)))


@path(*both("retain"))
def m_retain(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)

    def go(s, i, keep, fn):
        if i == len(m.e):
            cur = ip.read_path(s, c.c, c.p)
            ip.write_path(s, c.c, c.p, MapV(m.k, tuple(cur.e[j] for j in keep)))
            yield s, UNIT
            return
        for s2, v, g in ip.call_mut(s, fn, [Ref(m.e[i][0]), Mut(c.c, tuple(c.p) + (("mapv", i),))], ctx):
            if isinstance(v, Panic):
                yield s2, v
                continue
            for s3, t in decide(s2, v):
                yield from go(s3, i + 1, keep + (i,) if t else keep, g)
    yield from go(st, 0, (), a[1])


# entries: N("entry", map reference, key, index or None)
@path(*both("entry"))
def m_entry(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)
    for s, i in map_find(ip, st, m, a[1], ctx):
        if isinstance(i, Panic):
            yield s, i
        else:
            yield s, A(I_entry(ip, I), 0 if i is None else 1, (N("entry", c, a[1], i),))


def I_entry(ip, I):
    return None


ENT = ("std::collections::btree_map::Entry::", "std::collections::hash_map::Entry::")
ENTV = ("std::collections::btree_map::VacantEntry::", "std::collections::hash_map::VacantEntry::")
ENTO = ("std::collections::btree_map::OccupiedEntry::", "std::collections::hash_map::OccupiedEntry::")


def ent(ip, st, v):
    v = val(ip, st, v)
    while isinstance(v, A):
        v = val(ip, st, v.f[0])
    return v


def epaths(*ns):
    return [e + n for n in ns for e in ENT] + [e.replace("std::collections::btree_map", "std::collections::btree::map::entry") + n for n in ns for e in ENT[:1]]


def ent_set(ip, s, e, v):
    c, k, i = e.f
    m = ip.read_path(s, c.c, c.p)
    if i is None:
        ip.write_path(s, c.c, c.p, MapV(m.k, m.e + ((k, v),)))
        return Mut(c.c, tuple(c.p) + (("mapv", len(m.e)),))
    return Mut(c.c, tuple(c.p) + (("mapv", i),))


@path(*epaths("or_insert"))
def e_or_insert(ip, st, a, I, ctx):
    return ent_set(ip, st, ent(ip, st, a[0]), a[1])


@path(*epaths("or_insert_with", "or_insert_with_key"))
def e_or_insert_with(ip, st, a, I, ctx):
    e = ent(ip, st, a[0])
    if e.f[2] is not None:
        yield st, ent_set(ip, st, e, None)
        return
    args = [Ref(e.f[1])] if "with_key" in I["path"] else []
    for s, v in ip.call_value(st, a[1], args, ctx):
        yield s, v if isinstance(v, Panic) else ent_set(ip, s, e, v)


@path(*epaths("or_default"))
def e_or_default(ip, st, a, I, ctx):
    e = ent(ip, st, a[0])
    if e.f[2] is not None:
        yield st, ent_set(ip, st, e, None)
        return
    t = [x for x in I["args"] if isinstance(x, int)]
    for s, v in default_value(ip, st, t[1], ctx):
        yield s, v if isinstance(v, Panic) else ent_set(ip, s, e, v)


@path(*epaths("and_modify"))
def e_and_modify(ip, st, a, I, ctx):
    e = ent(ip, st, a[0])
    if e.f[2] is None:
        yield st, a[0]
        return
    for s, v in ip.call_value(st, a[1], [ent_set(ip, st, e, None)], ctx):
        yield s, v if isinstance(v, Panic) else a[0]


@path(*epaths("key"))
def e_key(ip, st, a, I, ctx):
    return Ref(ent(ip, st, a[0]).f[1])


@path(*[e + "insert" for e in ENTV], "std::collections::btree::map::entry::VacantEntry::insert")
def ev_insert(ip, st, a, I, ctx):
    return ent_set(ip, st, ent(ip, st, a[0]), a[1])


@path(*[e + n for e in ENTO for n in ("get", "get_mut", "into_mut", "insert", "remove")])
def eo(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("::")[-1]
    e = ent(ip, st, a[0])
    m = ent_set(ip, st, e, None)
    if n == "get":
        return Ref(ip.read_path(st, m.c, m.p))
    if n in ("get_mut", "into_mut"):
        return m
    if n == "insert":
        old = ip.read_path(st, m.c, m.p)
        ip.write_path(st, m.c, m.p, a[1])
        return old
    raise Abandon("entry " + n)


@trait("std::ops::Index::index")
@sel
def t_index(ip, I, s, k, base):
    if k in ("std::collections::BTreeMap", "std::collections::HashMap"):
        def f(ip, st, a, I, ctx):
            m = val(ip, st, a[0])
            for s2, i in map_find(ip, st, m, keyval(ip, st, a[1]), ctx):
                yield s2, Panic("no entry found for key", ip.where(ctx)) if i is None else Ref(m.e[i][1])
        return f
    if k in ("std::vec::Vec", "slice", "array"):
        return seq_index
    if k in ("str", "std::string::String"):
        from nstr import str_index
        return str_index
    return None


@trait("std::ops::IndexMut::index_mut")
@sel
def t_index_mut(ip, I, s, k, base):
    if k in ("std::vec::Vec", "slice", "array"):
        return seq_index
    return None


# ------------------------------------------------------------------ vectors and slices
VN = "std::vec::Vec::"
SL = "std::slice::<impl [T]>::"


def seq_index(ip, st, a, I, ctx):
    i = a[1]
    mut = isinstance(a[0], Mut)
    x = val(ip, st, a[0])
    if isinstance(x, Bytes):
        if isinstance(i, A):
            for s, c in bytes_range(ip, st, x.r, i):
                yield s, Panic("slice index out of range", ip.where(ctx)) if c is None else Bytes(c[1])
            return
        for s, b in byte_at(ip, st, x.r, i):
            yield s, Panic("index out of bounds", ip.where(ctx)) if b is None else Ref(b)
        return
    if not isinstance(x, Seq):
        raise Abandon("index of %r" % (x,))
    if isinstance(i, A):
        lo, hi = range_of(ip, i)if False else range_of(ip, st, i)
        lo = 0 if lo is None else st.nint(lo)
        hi = len(x.e) if hi is None else st.nint(hi)
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Abandon("slice range")
        if lo > hi or hi > len(x.e):
            yield st, Panic("slice index out of range", ip.where(ctx))
        else:
            yield st, Ref(Seq(x.e[lo:hi]))
        return
    i = st.nint(i)
    if not isinstance(i, int):
        raise Abandon("index that is not known")
    if i >= len(x.e):
        yield st, Panic("index out of bounds", ip.where(ctx))
    elif mut:
        m = mutcell(ip, st, a[0])
        yield st, Mut(m.c, tuple(m.p) + (("i", i),))
    else:
        yield st, Ref(x.e[i])


def byte_at(ip, st, r, n):
    """yields (state, byte value / ChS / None)"""
    for s0, beyond in decide(st, B("le", lin_add(st.rlen(r), n, -1))):
        if beyond:
            yield s0, None
            continue
        for s, c in ropes.cut(s0, r, n):
            if c is None:
                raise Abandon("byte inside a character")
            for s2, sp in ropes.split_first(s, c[1]):
                if sp is None:
                    continue
                x = resolve_ch(s2, sp[0])
                if isinstance(x, int):
                    yield s2, chr(x).encode()[0]
                elif s2.syms[x.id].cs & NONASCII:
                    raise Abandon("byte of a character outside ASCII")
                else:
                    yield s2, x


def bytes_range(ip, st, r, rng):
    yield from get_range(ip, st, r, rng)


@path(VN + "new", VN + "with_capacity")
def v_new(ip, st, a, I, ctx):
    return Seq(())


@path(VN + "push", VN + "push_within_capacity")
def v_push(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p)
    if isinstance(x, Bytes):
        b = a[1]
        ip.write_path(st, m.c, m.p, Bytes(cat(x.r, ch_rope(st, b))))
        return
    ip.write_path(st, m.c, m.p, Seq(x.e + (a[1],)))


@path(VN + "pop", SL + "pop")
def v_pop(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p)
    if not x.e:
        return NONE
    ip.write_path(st, m.c, m.p, Seq(x.e[:-1]))
    return some(x.e[-1])


def known(st, v):
    v = st.nint(v)
    if not isinstance(v, int):
        raise Abandon("position that is not known")
    return v


@path(VN + "insert", VN + "remove", VN + "swap_remove", VN + "truncate", VN + "clear", VN + "split_off", VN + "drain", VN + "resize",
      SL + "reverse", SL + "swap", SL + "fill", SL + "rotate_left", SL + "rotate_right")
def v_edit(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("::")[-1]
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p).e
    ret = UNIT
    if n == "insert":
        i = known(st, a[1])
        if i > len(x):
            return Panic("insertion index out of range", ip.where(ctx))
        x = x[:i] + (a[2],) + x[i:]
    elif n in ("remove", "swap_remove"):
        i = known(st, a[1])
        if i >= len(x):
            return Panic("removal index out of range", ip.where(ctx))
        ret = x[i]
        if n == "remove":
            x = x[:i] + x[i + 1:]
        else:
            y = list(x)
            y[i] = y[-1]
            x = tuple(y[:-1])
    elif n == "truncate":
        x = x[:known(st, a[1])]
    elif n == "clear":
        x = ()
    elif n == "split_off":
        i = known(st, a[1])
        ret = Seq(x[i:])
        x = x[:i]
    elif n == "drain":
        lo, hi = range_of(ip, st, a[1])
        lo = 0 if lo is None else known(st, lo)
        hi = len(x) if hi is None else known(st, hi)
        ret = N("list", x[lo:hi])
        x = x[:lo] + x[hi:]
    elif n == "resize":
        k = known(st, a[1])
        x = x[:k] + (a[2],) * (k - len(x))
    elif n == "reverse":
        x = tuple(reversed(x))
    elif n == "swap":
        i, j = known(st, a[1]), known(st, a[2])
        y = list(x)
        y[i], y[j] = y[j], y[i]
        x = tuple(y)
    elif n == "fill":
        x = (a[1],) * len(x)
    else:
        k = known(st, a[1])
        x = x[k:] + x[:k] if n.endswith("left") else x[len(x) - k:] + x[:len(x) - k]
    ip.write_path(st, m.c, m.p, Seq(x))
    return ret


@path(VN + "retain", VN + "retain_mut")
def v_retain(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    n = len(ip.read_path(st, m.c, m.p).e)

    def go(s, i, keep, fn):
        if i == n:
            cur = ip.read_path(s, m.c, m.p)
            ip.write_path(s, m.c, m.p, Seq(tuple(cur.e[j] for j in keep)))
            yield s, UNIT
            return
        e = Mut(m.c, tuple(m.p) + (("i", i),)) if "mut" in I["path"] else Ref(ip.read_path(s, m.c, m.p).e[i])
        for s2, v, g in ip.call_mut(s, fn, [e], ctx):
            if isinstance(v, Panic):
                yield s2, v
                continue
            for s3, t in decide(s2, v):
                yield from go(s3, i + 1, keep + (i,) if t else keep, g)
    yield from go(st, 0, (), a[1])


@path(VN + "dedup", VN + "dedup_by_key", VN + "dedup_by")
def v_dedup(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p).e
    mode = norm_path(I["path"]).split("::")[-1]

    def same(s, p, q):
        if mode == "dedup":
            yield from eq_values(ip, s, q, p, None, None, ctx)
            return
        cs = []
        for v in (q, p):
            ip.nframe += 1
            c = (ip.nframe, "dd")
            s.cells[c] = v
            cs.append(Mut(c, ()))
        if mode == "dedup_by":
            for s2, v in ip.call_value(s, a[1], cs, ctx):
                yield from decide(s2, v)
        else:
            for s2, k1 in ip.call_value(s, a[1], [cs[0]], ctx):
                for s3, k2 in ip.call_value(s2, a[1], [cs[1]], ctx):
                    yield from eq_values(ip, s3, k1, k2, None, None, ctx)

    def go(s, i, keep):
        if i == len(x):
            ip.write_path(s, m.c, m.p, Seq(keep))
            yield s, UNIT
        elif not keep:
            yield from go(s, i + 1, (x[i],))
        else:
            for s2, e in same(s, keep[-1], x[i]):
                yield from go(s2, i + 1, keep if e else keep + (x[i],))
    yield from go(st, 0, ())


@path(VN + "len", VN + "is_empty", SL + "len", SL + "is_empty")
def v_len(ip, st, a, I, ctx):
    x = val(ip, st, a[0])
    if isinstance(x, (Bytes, Rope)):
        n = st.rlen(x.r if isinstance(x, Bytes) else x)
        if "is_empty" in I["path"]:
            return ip.compare(st, "Eq", n, 0)
        return n
    n = len(x.e)
    return n == 0 if "is_empty" in I["path"] else n


@path(VN + "as_slice", VN + "as_mut_slice", SL + "as_slice", "std::array::<impl [T; N]>::as_slice", "std::slice::from_ref",
      "std::boxed::Box::leak", "std::vec::Vec::leak")
def v_as_slice(ip, st, a, I, ctx):
    if "from_ref" in I["path"]:
        return Ref(Seq((val1(ip, st, a[0]),)))
    return a[0]


@path(SL + "first", SL + "last", SL + "get", SL + "first_mut", SL + "last_mut", SL + "get_mut", SL + "get_unchecked")
def v_get(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("::")[-1]
    x = val(ip, st, a[0])
    if isinstance(x, Bytes):
        if n == "get" and isinstance(a[1], A):
            for s, c in bytes_range(ip, st, x.r, a[1]):
                yield s, NONE if c is None else some(Bytes(c[1]))
            return
        if n == "last":
            from nstr import split_last
            for s, sp in split_last(st, x.r):
                if sp is None:
                    yield s, NONE
                else:
                    c = resolve_ch(s, sp[1])
                    if isinstance(c, int):
                        yield s, some(Ref(chr(c).encode()[-1]))
                    elif s.syms[c.id].cs & NONASCII:
                        raise Abandon("byte of a character outside ASCII")
                    else:
                        yield s, some(Ref(c))
            return
        for s, b in byte_at(ip, st, x.r, a[1] if n == "get" else 0):
            yield s, NONE if b is None else some(Ref(b))
        return
    if n in ("get", "get_mut", "get_unchecked") and isinstance(a[1], A):
        lo, hi = range_of(ip, st, a[1])
        lo = 0 if lo is None else known(st, lo)
        hi = len(x.e) if hi is None else known(st, hi)
        yield st, NONE if lo > hi or hi > len(x.e) else some(Ref(Seq(x.e[lo:hi])))
        return
    i = 0 if n.startswith("first") else len(x.e) - 1 if n.startswith("last") else known(st, a[1])
    if not 0 <= i < len(x.e):
        yield st, NONE if n != "get_unchecked" else Panic("unchecked index", ip.where(ctx))
    elif n.endswith("mut"):
        m = mutcell(ip, st, a[0])
        yield st, some(Mut(m.c, tuple(m.p) + (("i", i),)))
    else:
        yield st, Ref(x.e[i]) if n == "get_unchecked" else some(Ref(x.e[i]))


@path(SL + "split_first", SL + "split_last", SL + "split_at")
def v_split(ip, st, a, I, ctx):
    x = val(ip, st, a[0])
    if not isinstance(x, Seq):
        raise Abandon("splitting bytes")
    if "split_at" in I["path"]:
        i = known(st, a[1])
        if i > len(x.e):
            return Panic("mid > len", ip.where(ctx))
        return tup(Ref(Seq(x.e[:i])), Ref(Seq(x.e[i:])))
    if not x.e:
        return NONE
    if "split_first" in I["path"]:
        return some(tup(Ref(x.e[0]), Ref(Seq(x.e[1:]))))
    return some(tup(Ref(x.e[-1]), Ref(Seq(x.e[:-1]))))


@path(SL + "contains")
def v_contains(ip, st, a, I, ctx):
    x = val(ip, st, a[0])
    k = val(ip, st, a[1])
    if isinstance(x, Bytes):
        if isinstance(k, int):
            yield from ropes.contains(st, x.r, chr(k))
            return
        raise Abandon("contains")
    t = I["args"][0] if isinstance(I["args"][0], int) else None

    def go(s, i):
        if i == len(x.e):
            yield s, False
            return
        for s2, e in eq_values(ip, s, x.e[i], k, t, t, ctx):
            if e is False:
                yield from go(s2, i + 1)
            else:
                yield s2, e
    yield from go(st, 0)


@path(SL + "starts_with", SL + "ends_with")
def v_starts(ip, st, a, I, ctx):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    end = "ends_with" in I["path"]
    if isinstance(x, Bytes):
        from nstr import pat_starts, pat_ends
        t = text(ip, st, y)
        p = ("lit", t.lit()) if t.lit() is not None else ("rope", t)
        for s, r in (pat_ends if end else pat_starts)(ip, st, x.r, p):
            yield s, r is not None
        return
    if len(y.e) > len(x.e):
        yield st, False
        return
    part = x.e[len(x.e) - len(y.e):] if end else x.e[:len(y.e)]
    yield from eq_lists(ip, st, [(p, q, None, None) for p, q in zip(part, y.e)], ctx)


def sorter(name, how):
    def f(ip, st, a, I, ctx):
        m = mutcell(ip, st, a[0])
        x = ip.read_path(st, m.c, m.p)
        t = I["args"][0] if isinstance(I["args"][0], int) else None

        if how == "plain":
            cmp = lambda s, p, q: cmp_values(ip, s, p, q, t, ctx)
        elif how == "by":
            def cmp(s, p, q):
                for s2, o in ip.call_value(s, a[1], [Ref(p), Ref(q)], ctx):
                    if isinstance(o, Panic):
                        yield s2, o
                    else:
                        yield from ord_val(ip, s2, o)
        else:
            kt = next((k for k in I["args"][1:] if isinstance(k, int) and ip.p.types[k]["k"] != "closure"), None)

            def cmp(s, p, q):
                for s2, k1 in ip.call_value(s, a[1], [Ref(p)], ctx):
                    for s3, k2 in ip.call_value(s2, a[1], [Ref(q)], ctx):
                        yield from cmp_values(ip, s3, k1, k2, kt, ctx)
        for s, d in sort_entries(ip, st, x.e, cmp):
            if isinstance(d, Panic):
                yield s, d
            else:
                ip.write_path(s, m.c, m.p, Seq(d))
                yield s, UNIT
    P[SL + name] = f


for _n in ("sort", "sort_unstable"):
    sorter(_n, "plain")
for _n in ("sort_by", "sort_unstable_by"):
    sorter(_n, "by")
for _n in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
    sorter(_n, "key")


@path(SL + "concat", SL + "join", "std::slice::Join::join", "std::slice::Concat::concat")
def v_join(ip, st, a, I, ctx):
    x = val(ip, st, a[0])
    sep = text(ip, st, a[1]) if len(a) > 1 else EMPTY
    ys = [val(ip, st, e) for e in x.e]
    if all(isinstance(y, (Rope, A)) for y in ys) :
        out = []
        for i, y in enumerate(ys):
            if i:
                out.append(sep)
            out.append(text(ip, st, y))
        return cat(*out)
    if all(isinstance(y, Seq) for y in ys) and len(a) == 1:
        return Seq(tuple(e for y in ys for e in y.e))
    raise Abandon("join")


@path(SL + "chunks", SL + "windows", SL + "chunks_exact")
def v_chunks(ip, st, a, I, ctx):
    x = val(ip, st, a[0])
    n = known(st, a[1])
    if not isinstance(x, Seq):
        raise Abandon("chunks of bytes")
    e = x.e
    if "windows" in I["path"]:
        return N("list", tuple(Ref(Seq(e[i:i + n])) for i in range(len(e) - n + 1)))
    return N("list", tuple(Ref(Seq(e[i:i + n])) for i in range(0, len(e), n)))


@path("std::array::<impl [T; N]>::map")
def arr_map(ip, st, a, I, ctx):
    for s, xs in gather(ip, st, N("map", N("list", a[0].e), a[1]), ctx):
        yield s, xs if isinstance(xs, Panic) else Seq(xs)


@path("std::array::from_fn")
def arr_from_fn(ip, st, a, I, ctx):
    raise Abandon("array::from_fn")


# boxes under construction (the vec! macro)
@path("std::boxed::Box::new_uninit", "std::boxed::box_new_uninit")
def box_uninit(ip, st, a, I, ctx):
    ip.nframe += 1
    c = (ip.nframe, "box")
    st.cells[c] = UNINIT
    return N("ubox", c)


@path("std::boxed::Box::write")
def box_write(ip, st, a, I, ctx):
    return Bx(a[1])


@path("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(ip, st, a, I, ctx):
    v = a[0]
    while isinstance(v, (Bx, A)):
        v = v.v if isinstance(v, Bx) else v.f[0]
    if isinstance(v, N) and v.k == "ubox":
        v = st.cells.pop(v.f[0])
        while isinstance(v, A):
            v = v.f[-1]
    return v


@path("std::slice::<impl [T]>::into_vec")
def slice_into_vec(ip, st, a, I, ctx):
    return val(ip, st, a[0])


@path("std::collections::hash_map::RandomState::new", "std::hash::RandomState::new", "std::hash::random::RandomState::new")
def rs_new(ip, st, a, I, ctx):
    return UNIT
