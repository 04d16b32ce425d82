"""Models of the standard library functions the analysed code calls."""
import re
from dom import *
import ropes
from ropes import decide, Infeasible, resolve_ch
from interp import NONE, some, ok, err, tup

P = {}      # normalised path -> model
TR = {}     # trait::method -> model (returns None at lookup when the type is not covered)
SKIP = object()


def path(*names):
    def d(f):
        for n in names:
            P[n] = f
        return f
    return d


def trait(*names):
    def d(f):
        for n in names:
            TR[n] = f
        return f
    return d


_norm = {}


def norm_path(p):
    r = _norm.get(p)
    if r is not None:
        return r
    out = []
    i = 0
    while i < len(p):
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    r = "".join(out)
    for a in ("core::", "alloc::"):
        if r.startswith(a):
            r = "std::" + r[len(a):]
    _norm[p] = r
    return r


# ------------------------------------------------------------------ access
def val(ip, st, v):
    """the value behind references"""
    while True:
        if isinstance(v, (Ref, Bx)):
            v = v.v
        elif isinstance(v, Mut):
            v = ip.read_path(st, v.c, v.p)
        elif isinstance(v, N) and v.k in ("dyn",):
            v = v.f[0]
        else:
            return v


def text(ip, st, v):
    """rope of a str-like value"""
    v = val(ip, st, v)
    while isinstance(v, A) and len(v.f) == 1:      # Cow and plain wrappers
        v = val(ip, st, v.f[0])
    if isinstance(v, Bytes):
        return st.norm(v.r)
    if isinstance(v, Rope):
        return st.norm(v)
    if isinstance(v, Seq) and all(isinstance(x, int) and x < 128 for x in v.e):
        return R("".join(map(chr, v.e)))
    raise Abandon("text expected, got %r" % (v,))


def is_textual(v):
    return isinstance(v, (Rope, Bytes))


def setv(ip, st, m, v):
    if not isinstance(m, Mut):
        raise Abandon("update through %r" % (m,))
    t = ip.read_path(st, m.c, m.p) if True else None
    while isinstance(t, (Mut,)):
        m = t
        t = ip.read_path(st, m.c, m.p)
    ip.write_path(st, m.c, m.p, v)


def mutcell(ip, st, m):
    """innermost unique reference"""
    while isinstance(m, Mut):
        t = ip.read_path(st, m.c, m.p)
        if not isinstance(t, Mut):
            return m
        m = t
    raise Abandon("unique reference expected: %r" % (m,))


def chr_seg(st, c):
    c = resolve_ch(st, c)
    return chr(c) if isinstance(c, int) else Cs(c.id)


def ch_rope(st, c):
    return mk_rope([chr_seg(st, c)])


def tyk(ip, t):
    if t is None:
        return "?"
    x = ip.p.types[t]
    k = x["k"]
    if k == "adt":
        return x["path"]
    return k


def stripref(ip, t):
    while t is not None and ip.p.types[t]["k"] in ("ref", "ptr"):
        t = ip.p.types[t]["to"]
    return t


def is_local(ip, t):
    return t is not None and ip.p.types[t]["k"] == "adt" and ip.p.types[t]["krate"] in ("icalendar", "icalharness")


STD_TEXT = ("str", "std::string::String", "std::borrow::Cow")


def some_ref(v):
    return some(v if is_textual(v) else Ref(v))


def mkref(v):
    return v if isinstance(v, Rope) else Ref(v)


# ------------------------------------------------------------------ lookup
class Natives:
    def __init__(self):
        self.cache = {}
        self.loops = None

    def lookup(self, ip, I):
        key = id(I)
        r = self.cache.get(key, SKIP)
        if r is not SKIP:
            return r
        r = self._lookup(ip, I)
        self.cache[key] = r
        return r

    def _lookup(self, ip, I):
        kr = I["krate"]
        np = norm_path(I["path"])
        if np in P:
            return P[np]
        if kr in ("icalendar",):
            return None
        if kr == "icalharness":
            return None
        if kr in ("chrono", "uuid", "chrono_tz", "iso8601"):
            import ntime
            f = ntime.lookup(ip, I, np)
            if f is not None:
                return f
        tr = I.get("trait")
        if tr:
            f = TR.get(tr + "::" + I["method"])
            if f is not None:
                s = I["self"]
                g = f(ip, I, s, tyk(ip, s), stripref(ip, s)) if getattr(f, "sel", False) else f
                if g is not None:
                    return g
        if np.startswith("std::panicking") or np in PANICS:
            return do_panic
        return None

    def at_loop_head(self, ip, st, inst, fr, bb, n, ctx, body):
        import loops
        return loops.at_head(ip, st, inst, fr, bb, n, ctx, body)


def sel(f):
    f.sel = True
    return f


PANICS = {"std::rt::panic_fmt", "std::rt::begin_panic", "std::option::unwrap_failed", "std::option::expect_failed",
          "std::result::unwrap_failed", "std::slice::index::slice_index_fail", "std::str::slice_error_fail",
          "std::rt::panic_display", "std::cell::panic_already_borrowed", "std::cell::panic_already_mutably_borrowed",
          "std::process::abort", "std::intrinsics::abort", "std::panicking::panic", "std::rt::panic_unimplemented",
          "std::vec::Vec::remove::assert_failed", "std::num::from_ascii_radix_panic"}


def do_panic(ip, st, args, I, ctx):
    msg = norm_path(I["path"]).split("::")[-1]
    a = args[0] if args else None
    if isinstance(a, Rope):
        msg = a.lit() or msg
    elif isinstance(a, N) and a.k == "args":
        msg = "".join(p[1] if p[0] == "lit" else "{}" for p in a.f[0])
    yield st, Panic(msg, ip.where(ctx))


# ------------------------------------------------------------------ the analysis' own primitives
@path("icalharness::v::text")
def v_text(ip, st, args, I, ctx):
    name, cls = args[0].lit(), args[1].lit()
    lo, hi = 0, BIG
    m = re.match(r"([a-z]+)(?:\{(\d+),(\d*)\})?$", cls)
    if m.group(2):
        lo, hi = int(m.group(2)), int(m.group(3)) if m.group(3) else BIG
    cs = CLASSES[m.group(1)]
    id = name
    if id in st.syms:
        raise Abandon("symbol %s twice" % id)
    st.syms[id] = Sym("s", cs=cs, lo=lo, hi=hi)
    st.log = st.log + (("text", id),)
    return Rope((Sy(id),))


@path("icalharness::v::ch")
def v_ch(ip, st, args, I, ctx):
    name, cls = args[0].lit(), args[1].lit()
    st.syms[name] = Sym("c", cs=CLASSES[cls])
    return ChS(name)


@path("icalharness::v::u32", "icalharness::v::u8")
def v_int(ip, st, args, I, ctx):
    id = "int:" + args[0].lit()
    lo, hi = st.nint(args[1]), st.nint(args[2])
    st.syms[id] = Sym("i", lo=lo, hi=hi)
    return mk_lin(0, {id: 1})


@path("icalharness::v::any")
def v_any(ip, st, args, I, ctx):
    """an unknown condition: both values are explored"""
    return B("app", T("unknown", args[0].lit()))


@path("icalharness::v::pick")
def v_pick(ip, st, args, I, ctx):
    """an unknown index: every value is explored"""
    id = "pick " + args[0].lit()
    if id in st.syms:
        yield st, st.syms[id].bind
        return
    for i in range(st.nint(args[1])):
        s = st.clone()
        s.syms[id] = Sym("i", lo=i, hi=i, bind=i)
        yield s, i


@path("icalharness::v::check")
def v_check(ip, st, args, I, ctx):
    id = args[0].lit()
    for s, v in decide(st, args[1]):
        ip.checks.append((id, v, s, None))
        yield s, UNIT


@path("icalharness::v::assume")
def v_assume(ip, st, args, I, ctx):
    for s, v in decide(st, args[0]):
        if v:
            yield s, UNIT


@path("icalharness::v::show")
def v_show(ip, st, args, I, ctx):
    print("SHOW", args[0].lit(), ip_deep(ip, st, args[1]))


def ip_deep(ip, st, v):
    v = val(ip, st, v)
    return st.norm(v) if isinstance(v, Rope) else v


# ------------------------------------------------------------------ equality and order
def eq_values(ip, st, a, b, ta, tb, ctx):
    """yields (state, bool)"""
    types = ip.p.types
    ta, tb = stripref(ip, ta), stripref(ip, tb)
    if ta is not None and is_local(ip, ta):
        i = ip.p.impls.get((ta, "std::cmp::PartialEq", "eq"))
        if i is not None and (tb is None or tb == ta):
            a, b = val(ip, st, a), val(ip, st, b)
            for s, v in ip.call(st, i, [Ref(a), Ref(b)], ctx):
                if isinstance(v, Panic):
                    yield s, v
                else:
                    yield from decide(s, v)
            return
    a, b = val(ip, st, a), val(ip, st, b)
    if is_textual(a) or is_textual(b) or tyk(ip, ta) in STD_TEXT:
        yield from ropes.rope_eq(st, text(ip, st, a), text(ip, st, b))
        return
    if isinstance(a, (int, Lin, ChS, B)) or isinstance(b, (int, Lin, ChS, B)):
        yield from decide(st, ip.compare(st, "Eq", a, b))
        return
    if isinstance(a, T) and isinstance(b, T):
        if a == b:
            yield st, True
        else:
            yield from decide(st, B("app", T("teq", a, b)))
        return
    if isinstance(a, A) and isinstance(b, A):
        if a.v != b.v:
            yield st, False
            return
        fts = [None] * max(len(a.f), len(b.f))
        if ta is not None:
            x = types[ta]
            if x["k"] == "adt" and x["variants"]:
                fts = [f[1] for f in x["variants"][a.v]["fields"]]
            elif x["k"] == "tuple":
                fts = x["elems"]
        ftb = fts
        if tb is not None and tb != ta:
            x = types[tb]
            if x["k"] == "adt" and x["variants"]:
                ftb = [f[1] for f in x["variants"][a.v]["fields"]]
            elif x["k"] == "tuple":
                ftb = x["elems"]
        yield from eq_lists(ip, st, list(zip(a.f, b.f, fts, ftb)), ctx)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.e) != len(b.e):
            yield st, False
            return
        ea = elem_ty(ip, ta)
        eb = elem_ty(ip, tb)
        yield from eq_lists(ip, st, [(x, y, ea, eb) for x, y in zip(a.e, b.e)], ctx)
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        if len(a.e) != len(b.e):
            yield st, False
            return
        vt = types[ta]["args"][1] if ta is not None and types[ta]["k"] == "adt" else None
        yield from eq_maps(ip, st, a.e, b, vt, ctx)
        return
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k:
        yield from eq_lists(ip, st, [(x, y, None, None) for x, y in zip(a.f, b.f)], ctx)
        return
    raise Abandon("equality of %r and %r" % (a, b))


def elem_ty(ip, t):
    if t is None:
        return None
    x = ip.p.types[t]
    if "elem" in x:
        return x["elem"]
    if x["k"] == "adt" and x["args"]:
        return x["args"][0]
    return None


def eq_lists(ip, st, pairs, ctx):
    if not pairs:
        yield st, True
        return
    a, b, ta, tb = pairs[0]
    for s, v in eq_values(ip, st, a, b, ta, tb, ctx):
        if v is True:
            yield from eq_lists(ip, s, pairs[1:], ctx)
        else:
            yield s, v


def eq_maps(ip, st, ents, b, vt, ctx):
    if not ents:
        yield st, True
        return
    k, v = ents[0]
    for s, i in map_find(ip, st, b, k, ctx):
        if i is None:
            yield s, False
        else:
            for s2, r in eq_values(ip, s, v, b.e[i][1], vt, vt, ctx):
                if r is True:
                    yield from eq_maps(ip, s2, ents[1:], b, vt, ctx)
                else:
                    yield s2, r


def map_find(ip, st, m, k, ctx, i=0):
    """yields (state, index or None)"""
    if i == len(m.e):
        yield st, None
        return
    for s, v in eq_values(ip, st, m.e[i][0], k, None, None, ctx):
        if v is True:
            yield s, i
        elif v is False:
            yield from map_find(ip, s, m, k, ctx, i + 1)
        else:
            yield s, v


def strip_common(a, b):
    """what is left of two texts after what they have in common at the start"""
    x, y = list(a.s), list(b.s)
    while x and y:
        if x[0] == y[0]:
            x.pop(0)
            y.pop(0)
            continue
        if isinstance(x[0], str) and isinstance(y[0], str):
            n = 0
            while n < min(len(x[0]), len(y[0])) and x[0][n] == y[0][n]:
                n += 1
            if n == 0:
                break
            x[0], y[0] = x[0][n:], y[0][n:]
            if not x[0]:
                x.pop(0)
            if not y[0]:
                y.pop(0)
            continue
        break
    return Rope(tuple(x)), Rope(tuple(y))


def rope_cmp(st, a, b):
    """yields (state, -1/0/1)"""
    for s, e in ropes.rope_eq(st, a, b):
        if e:
            yield s, 0
            continue
        p, q = strip_common(s.norm(a), s.norm(b))
        if not p.s:
            yield s, -1
        elif not q.s:
            yield s, 1
        elif isinstance(p.s[0], str) and isinstance(q.s[0], str):
            yield s, -1 if p.s[0] < q.s[0] else 1
        else:
            # one of them may be forced to be empty: handled by the facts at evaluation
            for f, v in s.facts:
                if f.op == "rlt":
                    g = strip_common(s.norm(f.a[0]), s.norm(f.a[1]))
                    if g == (p, q):
                        yield s, -1 if v else 1
                        break
                    if g == (q, p):
                        yield s, 1 if v else -1
                        break
            else:
                for v in (True, False):
                    s2 = s.clone()
                    s2.fact(B("rlt", p, q), v)
                    yield s2, -1 if v else 1


def cmp_values(ip, st, a, b, ta, ctx):
    """yields (state, -1/0/1)"""
    ta = stripref(ip, ta)
    if ta is not None and ip.p.types[ta].get("path") == "std::cmp::Reverse":
        a, b = val(ip, st, a), val(ip, st, b)
        yield from cmp_values(ip, st, b.f[0], a.f[0], ip.p.types[ta]["variants"][0]["fields"][0][1], ctx)
        return
    if ta is not None and is_local(ip, ta):
        i = ip.p.impls.get((ta, "std::cmp::Ord", "cmp"))
        if i is not None:
            a, b = val(ip, st, a), val(ip, st, b)
            for s, v in ip.call(st, i, [Ref(a), Ref(b)], ctx):
                yield from ord_val(ip, s, v)
            return
    a, b = val(ip, st, a), val(ip, st, b)
    if is_textual(a) and is_textual(b):
        yield from rope_cmp(st, text(ip, st, a), text(ip, st, b))
        return
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        for s, e in decide(st, ip.compare(st, "Eq", a, b)):
            if e:
                yield s, 0
            else:
                for s2, l in decide(s, ip.compare(s, "Lt", a, b)):
                    yield s2, -1 if l else 1
        return
    if isinstance(a, A) and isinstance(b, A):
        if a.v != b.v:
            yield st, -1 if a.v < b.v else 1
            return
        fts = [None] * len(a.f)
        if ta is not None:
            x = ip.p.types[ta]
            if x["k"] == "adt" and x["variants"]:
                fts = [f[1] for f in x["variants"][a.v]["fields"]]
            elif x["k"] == "tuple":
                fts = x["elems"]
        yield from cmp_lists(ip, st, list(zip(a.f, b.f, fts)), ctx)
        return
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.e) == len(b.e):
            yield from cmp_lists(ip, st, [(x, y, elem_ty(ip, ta)) for x, y in zip(a.e, b.e)], ctx)
            return
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k and a.k in ("dur", "date", "time", "ndt", "utc"):
        yield from cmp_lists(ip, st, [(x, y, None) for x, y in zip(a.f, b.f)], ctx)
        return
    if isinstance(a, T) and isinstance(b, T):
        if a == b:
            yield st, 0
            return
        for s, e in decide(st, B("app", T("teq", a, b))):
            if e:
                yield s, 0
            else:
                for s2, l in decide(s, B("app", T("tlt", a, b))):
                    yield s2, -1 if l else 1
        return
    raise Abandon("order of %r and %r" % (a, b))


def cmp_lists(ip, st, ps, ctx):
    if not ps:
        yield st, 0
        return
    for s, c in cmp_values(ip, st, ps[0][0], ps[0][1], ps[0][2], ctx):
        if c == 0:
            yield from cmp_lists(ip, s, ps[1:], ctx)
        else:
            yield s, c


def ord_val(ip, st, v):
    """Ordering value to -1/0/1"""
    if isinstance(v, A):
        if v.f and isinstance(v.f[0], A):      # Option<Ordering>
            v = v.f[0]
        yield st, v.v - 1
        return
    if isinstance(v, N) and v.k == "cmp":
        for s, e in decide(st, B("eq", v.f[0])):
            if e:
                yield s, 0
            else:
                for s2, l in decide(s, B("le", lin_add(v.f[0], 1))):
                    yield s2, -1 if l else 1
        return
    raise Abandon("ordering %r" % (v,))


@trait("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
@sel
def t_eq(ip, I, s, k, base):
    if is_local(ip, base) and ip.p.types[base]["k"] == "adt" and (k != "ref" or I["method"] == "ne"):
        return None
    if I["body"] is not None and k not in ("ref",) and k not in EQ_NATIVE and not k.startswith("std::") and k not in ("int", "char", "bool"):
        return None
    neg = I["method"] == "ne"
    args = I["args"]
    tb = args[1] if len(args) > 1 and I["path"].startswith("std::cmp::PartialEq") else s

    def f(ip, st, a, I, ctx):
        for s2, v in eq_values(ip, st, a[0], a[1], s, None if tb == s and k in STD_TEXT else (s if neg is False and tb == s else None), ctx):
            yield s2, (v if isinstance(v, Panic) else (v != neg))
    return f


EQ_NATIVE = {"slice", "array", "str", "tuple"}


@trait("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
@sel
def t_cmp(ip, I, s, k, base):
    if is_local(ip, base) and k != "ref":
        return None
    part = I["method"] == "partial_cmp"

    def f(ip, st, a, I, ctx):
        for s2, c in cmp_values(ip, st, a[0], a[1], s, ctx):
            o = A(None, c + 1, ())
            yield s2, some(o) if part else o
    return f


@trait("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
@sel
def t_lt(ip, I, s, k, base):
    if is_local(ip, base):
        return None
    m = I["method"]

    def f(ip, st, a, I, ctx):
        x, y = val(ip, st, a[0]), val(ip, st, a[1])
        if isinstance(x, (int, Lin, ChS)) and isinstance(y, (int, Lin, ChS)):
            yield st, ip.compare(st, {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], x, y)
            return
        for s2, c in cmp_values(ip, st, x, y, base, ctx):
            yield s2, {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[m]
    return f


@trait("std::cmp::Ord::min", "std::cmp::Ord::max")
@path("std::cmp::min", "std::cmp::max")
def t_minmax(ip, st, a, I, ctx):
    mx = I["path"].endswith("max")
    x, y = a
    t = I["args"][0] if I["args"] else I["self"]
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        for s, v in decide(st, ip.compare(st, "Le", x, y)):
            yield s, (y if v else x) if mx else (x if v else y)
        return
    for s, c in cmp_values(ip, st, x, y, t, ctx):
        yield s, (y if c <= 0 else x) if mx else (x if c <= 0 else y)


@trait("std::cmp::Ord::clamp")
def t_clamp(ip, st, a, I, ctx):
    x, lo, hi = a
    for s, v in decide(st, ip.compare(st, "Lt", x, lo)):
        if v:
            yield s, lo
        else:
            for s2, w in decide(s, ip.compare(s, "Gt", x, hi)):
                yield s2, hi if w else x


# ------------------------------------------------------------------ clone, default
def clone_value(ip, st, v, t, ctx):
    """yields (state, value)"""
    types = ip.p.types
    if t is not None:
        if types[t]["k"] in ("ref", "ptr"):
            yield st, v
            return
        if is_local(ip, t):
            i = ip.p.impls.get((t, "std::clone::Clone", "clone"))
            if i is not None and ip.p.insts[i]["body"] is not None:
                yield from ip.call(st, i, [Ref(v)], ctx)
                return
        k = tyk(ip, t)
        if isinstance(v, Seq) and k in ("std::vec::Vec", "slice", "array"):
            et = elem_ty(ip, t)
            if et is not None and not plain_clone(ip, et):
                for s, vs in clone_list(ip, st, v.e, et, ctx):
                    yield s, vs if isinstance(vs, Panic) else Seq(tuple(vs))
                return
        if isinstance(v, MapV):
            vt = types[t]["args"][1]
            if not plain_clone(ip, vt):
                for s, vs in clone_list(ip, st, tuple(x for _, x in v.e), vt, ctx):
                    yield s, vs if isinstance(vs, Panic) else MapV(v.k, tuple((k, x) for (k, _), x in zip(v.e, vs)))
                return
        if isinstance(v, A) and types[t]["k"] in ("adt", "tuple") and v.f:
            fts = [f[1] for f in types[t]["variants"][v.v]["fields"]] if types[t]["k"] == "adt" else types[t]["elems"]
            if not all(plain_clone(ip, x) for x in fts):
                for s, vs in clone_fields(ip, st, v.f, fts, ctx):
                    yield s, vs if isinstance(vs, Panic) else A(v.ty, v.v, tuple(vs))
                return
    yield st, v


def clone_list(ip, st, vs, t, ctx, done=()):
    if not vs:
        yield st, done
        return
    for s, v in clone_value(ip, st, vs[0], t, ctx):
        if isinstance(v, Panic):
            yield s, v
        else:
            yield from clone_list(ip, s, vs[1:], t, ctx, done + (v,))


def clone_fields(ip, st, vs, ts, ctx, done=()):
    if not vs:
        yield st, done
        return
    for s, v in clone_value(ip, st, vs[0], ts[0], ctx):
        if isinstance(v, Panic):
            yield s, v
        else:
            yield from clone_fields(ip, s, vs[1:], ts[1:], ctx, done + (v,))


_plain = {}


def plain_clone(ip, t, seen=()):
    """is cloning the type a copy of the value (no hand written code involved)"""
    if t is None or t in seen:
        return True
    key = (id(ip.p), t)
    if key in _plain:
        return _plain[key]
    x = ip.p.types[t]
    k = x["k"]
    r = True
    if k == "adt":
        if is_local(ip, t):
            r = False
        else:
            r = all(plain_clone(ip, a, seen + (t,)) for a in x["args"] if isinstance(a, int))
    elif k in ("array", "slice"):
        r = plain_clone(ip, x["elem"], seen + (t,))
    elif k == "tuple":
        r = all(plain_clone(ip, a, seen + (t,)) for a in x["elems"])
    _plain[key] = r
    return r


@trait("std::clone::Clone::clone")
@sel
def t_clone(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness"):
        return None
    if k in ("closure", "fndef"):
        return lambda ip, st, a, I, ctx: val(ip, st, a[0])

    def f(ip, st, a, I, ctx):
        v = a[0]
        if isinstance(v, Ref):
            v = v.v
        elif isinstance(v, Mut):
            v = ip.read_path(st, v.c, v.p)
        yield from clone_value(ip, st, v, s, ctx)
    return f


@trait("std::clone::Clone::clone_from")
def t_clone_from(ip, st, a, I, ctx):
    for s, v in clone_value(ip, st, val(ip, st, a[1]), I["self"], ctx):
        if isinstance(v, Panic):
            yield s, v
        else:
            setv(ip, s, a[0], v)
            yield s, UNIT


@path("std::option::Option::cloned", "std::option::Option::copied")
def opt_cloned(ip, st, a, I, ctx):
    v = a[0]
    if v.v == 0:
        return NONE
    return opt_cloned2(ip, st, v, I, ctx)


def opt_cloned2(ip, st, v, I, ctx):
    t = I["args"][0] if I["args"] else None
    for s, x in clone_value(ip, st, val1(ip, st, v.f[0]), t, ctx):
        yield s, x if isinstance(x, Panic) else some(x)


def val1(ip, st, v):
    """one level of reference"""
    if isinstance(v, Ref):
        return v.v
    if isinstance(v, Mut):
        return ip.read_path(st, v.c, v.p)
    return v


def default_value(ip, st, t, ctx):
    k = tyk(ip, t)
    x = ip.p.types[t]
    if k in ("std::string::String", "str"):
        yield st, EMPTY
    elif k == "ref":
        yield from default_value(ip, st, x["to"], ctx)
    elif k == "std::vec::Vec":
        yield st, Seq(())
    elif k == "std::collections::BTreeMap":
        yield st, MapV("b", ())
    elif k == "std::collections::HashMap":
        yield st, MapV("h", ())
    elif k in ("std::collections::BTreeSet", "std::collections::HashSet"):
        yield st, MapV("b" if "BTree" in k else "h", ())
    elif k == "std::option::Option":
        yield st, NONE
    elif k == "int":
        yield st, 0
    elif k == "bool":
        yield st, False
    elif k == "std::borrow::Cow":
        yield st, A(t, 1, (EMPTY,))
    elif k == "tuple":
        yield from default_list(ip, st, x["elems"], ctx)
    else:
        i = ip.p.impls.get((t, "std::default::Default", "default"))
        if i is None:
            raise Abandon("default of " + k)
        yield from ip.call(st, i, [], ctx)


def default_list(ip, st, ts, ctx, done=()):
    if not ts:
        yield st, A(None, 0, done)
        return
    for s, v in default_value(ip, st, ts[0], ctx):
        if isinstance(v, Panic):
            yield s, v
        else:
            yield from default_list(ip, s, ts[1:], ctx, done + (v,))


@trait("std::default::Default::default")
def t_default(ip, st, a, I, ctx):
    yield from default_value(ip, st, I["self"], ctx)


@path("std::mem::take")
def mem_take(ip, st, a, I, ctx):
    m = a[0]
    old = ip.read_path(st, m.c, m.p)
    for s, v in default_value(ip, st, I["args"][0], ctx):
        if isinstance(v, Panic):
            yield s, v
        else:
            ip.write_path(s, m.c, m.p, v)
            yield s, old


@path("std::mem::replace")
def mem_replace(ip, st, a, I, ctx):
    m = a[0]
    old = ip.read_path(st, m.c, m.p)
    ip.write_path(st, m.c, m.p, a[1])
    return old


@path("std::mem::swap")
def mem_swap(ip, st, a, I, ctx):
    m, n = a
    x, y = ip.read_path(st, m.c, m.p), ip.read_path(st, n.c, n.p)
    ip.write_path(st, m.c, m.p, y)
    ip.write_path(st, n.c, n.p, x)


@path("std::option::Option::take")
def opt_take(ip, st, a, I, ctx):
    m = a[0]
    old = ip.read_path(st, m.c, m.p)
    ip.write_path(st, m.c, m.p, NONE)
    return old


@path("std::option::Option::replace")
def opt_replace(ip, st, a, I, ctx):
    m = a[0]
    old = ip.read_path(st, m.c, m.p)
    ip.write_path(st, m.c, m.p, some(a[1]))
    return old


@path("std::option::Option::as_deref", "std::option::Option::as_ref")
def opt_as_ref(ip, st, a, I, ctx):
    o = val(ip, st, a[0])
    if o.v == 0:
        return NONE
    v = o.f[0]
    if I["path"].endswith("as_deref"):
        if isinstance(v, A):
            return some(text(ip, st, v))
        return some(mkref(val(ip, st, v)))
    return some(Ref(v))


@path("std::mem::size_of", "std::mem::align_of")
def size_of(ip, st, a, I, ctx):
    t = next((x for x in I["args"] if isinstance(x, int)), None)
    x = ip.p.types[t] if t is not None else {"k": None}
    n = {"int": x.get("bits", 0) // 8, "char": 4, "bool": 1}.get(x["k"])
    if n:
        return n
    return ip.opaque_int(st, "size", (t,), 1 if sized(ip, t) else 0, 1 << 40)


def sized(ip, t, seen=()):
    """does the type certainly take space"""
    if t is None or t in seen:
        return False
    x = ip.p.types[t]
    k = x["k"]
    if k in ("int", "char", "bool", "float", "ref", "ptr"):
        return True
    if k == "tuple":
        return any(sized(ip, a, seen + (t,)) for a in x["elems"])
    if k == "adt":
        if tyk(ip, t) in ("std::string::String", "std::vec::Vec", "std::boxed::Box", "std::borrow::Cow"):
            return True
        vs = x["variants"]
        return bool(vs) and all(any(sized(ip, f[1], seen + (t,)) for f in v["fields"]) for v in vs)
    return False




@path("std::prelude::v1::Some", "std::option::Option::Some")
def ctor_some(ip, st, a, I, ctx):
    return some(a[0])


@path("std::prelude::v1::Ok", "std::result::Result::Ok")
def ctor_ok(ip, st, a, I, ctx):
    return ok(a[0])


@path("std::prelude::v1::Err", "std::result::Result::Err")
def ctor_err(ip, st, a, I, ctx):
    return err(a[0])


@path("std::mem::drop", "std::mem::forget")
def mem_drop(ip, st, a, I, ctx):
    return UNIT


@path("std::hint::must_use", "std::convert::identity", "std::hint::black_box", "std::mem::ManuallyDrop::new",
      "std::mem::ManuallyDrop::into_inner")
def ident(ip, st, a, I, ctx):
    return a[0]


@path("std::intrinsics::cold_path", "std::hint::cold_path", "std::hint::assert_unchecked", "std::intrinsics::assert_inhabited",
      "std::intrinsics::assume", "std::string::String::reserve", "std::vec::Vec::reserve", "std::string::String::shrink_to_fit",
      "std::vec::Vec::shrink_to_fit", "std::string::String::reserve_exact", "std::vec::Vec::reserve_exact", "std::string::String::shrink_to",
      "std::vec::Vec::shrink_to", "std::collections::HashMap::reserve", "std::collections::HashMap::shrink_to_fit",
      "std::collections::HashMap::shrink_to", "std::collections::HashSet::reserve", "std::collections::HashSet::shrink_to_fit",
      "std::collections::VecDeque::reserve", "std::collections::VecDeque::shrink_to_fit", "std::collections::VecDeque::reserve_exact")
def nothing(ip, st, a, I, ctx):
    return UNIT


@path("std::string::String::try_reserve", "std::vec::Vec::try_reserve", "std::string::String::try_reserve_exact", "std::vec::Vec::try_reserve_exact")
def try_reserve(ip, st, a, I, ctx):
    if not isinstance(st.nint(a[1]), int):
        raise Abandon("reserving an undetermined capacity")
    return ok(UNIT)


@path("std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new")
def box_new(ip, st, a, I, ctx):
    return Bx(a[0])


# ------------------------------------------------------------------ deref, conversions
@trait("std::ops::Deref::deref", "std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref", "std::ops::DerefMut::deref_mut",
       "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut")
@sel
def t_deref(ip, I, s, k, base):
    if k in ("std::string::String", "str", "std::vec::Vec", "slice", "array", "std::boxed::Box", "std::mem::ManuallyDrop") or k == "ref" and I["method"] in ("deref", "borrow"):
        mut = I["method"] in ("deref_mut", "borrow_mut", "as_mut")

        def f(ip, st, a, I, ctx):
            v = a[0]
            if mut:
                return v
            if k == "ref":
                return val1(ip, st, v) if I["method"] == "deref" else v
            x = val1(ip, st, v)
            if k == "std::boxed::Box":
                if isinstance(x, Bx):
                    x = x.v
                return x if isinstance(x, Rope) else Ref(x)
            if isinstance(x, Rope):
                tgt = I["args"][-1] if I["args"] and I["trait"] == "std::convert::AsRef" else None
                if tgt is not None and ip.p.types[tgt]["k"] == "slice":
                    return Bytes(x)
                return x
            if isinstance(x, (Seq, Bytes)):
                return Ref(x) if isinstance(x, Seq) else x
            raise Abandon("deref of %r" % (x,))
        return f
    if k == "std::borrow::Cow":
        def g(ip, st, a, I, ctx):
            return text(ip, st, a[0])
        return g
    return None


@path("std::borrow::Cow::into_owned", "std::borrow::Cow::to_mut")
def cow_into_owned(ip, st, a, I, ctx):
    if I["path"].endswith("to_mut"):
        m = mutcell(ip, st, a[0])
        v = ip.read_path(st, m.c, m.p)
        ip.write_path(st, m.c, m.p, A(v.ty, 1, (text(ip, st, v),)))
        return Mut(m.c, tuple(m.p) + (("d", 1), ("f", 0, None)))
    v = a[0]
    x = val1(ip, st, v.f[0])
    return x


@trait("std::borrow::ToOwned::to_owned")
@sel
def t_to_owned(ip, I, s, k, base):
    if k in ("str", "std::string::String", "slice", "std::borrow::Cow") or not is_local(ip, s):
        def f(ip, st, a, I, ctx):
            v = val1(ip, st, a[0])
            if k == "str":
                return v
            return clone_value(ip, st, v, s, ctx)
        return f
    return None


@path("std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "std::vec::Vec::into_boxed_slice",
      "std::string::String::into_boxed_str", "std::str::<impl str>::into_string", "std::str::<impl str>::into_boxed_str")
def to_vec(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if I["path"].endswith("to_vec"):
        return clone_value(ip, st, v, None, ctx) if plain_clone(ip, I["args"][0]) else clone_seq(ip, st, v, I["args"][0], ctx)
    return v


@path("std::vec::from_elem")
def from_elem(ip, st, a, I, ctx):
    n = st.nint(a[1])
    if not isinstance(n, int) or n > 5000:
        raise Abandon("a vector of undetermined length")
    if n == 0:
        return Seq(())
    return clone_seq(ip, st, Seq((a[0],) * n), I["args"][0], ctx)


def clone_seq(ip, st, v, t, ctx):
    for s, vs in clone_list(ip, st, v.e, t, ctx):
        yield s, vs if isinstance(vs, Panic) else Seq(tuple(vs))


@trait("std::convert::From::from")
@sel
def t_from(ip, I, s, k, base):
    at = I["args"][-1] if I["args"] else None
    p = I["path"]
    if k == "std::string::String":
        def f(ip, st, a, I, ctx):
            v = val(ip, st, a[0])
            if isinstance(v, (int, ChS)):
                return ch_rope(st, v)
            return text(ip, st, a[0])
        return f
    if k == "std::borrow::Cow":
        def g(ip, st, a, I, ctx):
            v = a[0]
            borrowed = "&" in p.split(" as ")[1] if " as " in p else False
            return A(s, 0 if borrowed and "String>" not in p.split("From<")[-1].replace("&", "", 0) or "&'a str" in p else 1, (text(ip, st, v),))
        return g
    if k == "std::vec::Vec":
        def h(ip, st, a, I, ctx):
            v = val(ip, st, a[0])
            if isinstance(v, Seq):
                return v
            if isinstance(v, Rope):
                return Bytes(v)
            raise Abandon("vector from %r" % (v,))
        return h
    if k in ("std::collections::BTreeMap", "std::collections::HashMap"):
        def m(ip, st, a, I, ctx):
            return from_items(ip, st, s, list(val(ip, st, a[0]).e), ctx)
        return m
    if k == "std::boxed::Box":
        def b(ip, st, a, I, ctx):
            return Bx(a[0])
        return b
    if k == "int":
        def n(ip, st, a, I, ctx):
            v = a[0]
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, ChS):
                return v
            return v
        return n
    if k == "char":
        return lambda ip, st, a, I, ctx: a[0]
    return None


@trait("std::convert::TryFrom::try_from")
@sel
def t_try_from(ip, I, s, k, base):
    if k == "int":
        def f(ip, st, a, I, ctx):
            bits_, signed = ip.int_info(s)
            mn, mx = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if signed else (0, (1 << bits_) - 1)
            v = a[0]
            if not isinstance(v, (int, Lin)):
                raise Abandon("integer conversion of %r" % (v,))
            for s1, lo in decide(st, ip.compare(st, "Lt", v, mn)):
                if lo:
                    yield s1, err(UNIT)
                else:
                    for s2, hi in decide(s1, ip.compare(s1, "Gt", v, mx)):
                        yield s2, err(UNIT) if hi else ok(v)
        return f
    return None


@trait("std::string::ToString::to_string")
@sel
def t_to_string(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness"):
        return None

    def f(ip, st, a, I, ctx):
        yield from display_rope(ip, st, a[0], s, ctx)
    return f


# ------------------------------------------------------------------ formatting
SPEC0 = (None, None, None)


def display_rope(ip, st, v, t, ctx, kind="disp", spec=SPEC0):
    """yields (state, rope); a formatting error becomes a panic like in to_string"""
    ip.nframe += 1
    c = (ip.nframe, "buf")
    st.cells[c] = EMPTY
    for s, r in fmt_into(ip, st, Mut(c, ()), kind, t, v, spec, ctx):
        out = s.cells.pop(c)
        if isinstance(r, Panic):
            yield s, r
        elif r:
            yield s, s.norm(out)
        else:
            yield s, Panic("a Display implementation returned an error unexpectedly", ip.where(ctx))


def sink_write(ip, st, sink, rope, ctx):
    """yields (state, True/False/Panic)"""
    while True:
        if isinstance(sink, N) and sink.k == "dyn":
            sink = sink.f[0]
            continue
        if isinstance(sink, Bx):
            sink = sink.v
            continue
        if not isinstance(sink, Mut):
            raise Abandon("sink %r" % (sink,))
        t = ip.read_path(st, sink.c, sink.p)
        if isinstance(t, (Mut,)) or isinstance(t, N) and t.k == "dyn":
            sink = t
        elif isinstance(t, N) and t.k == "fmtr":
            sink = t.f[0]
        else:
            break
    if isinstance(t, Rope):
        ip.write_path(st, sink.c, sink.p, cat(t, rope))
        yield st, True
        return
    if isinstance(t, A) and t.ty is not None:
        i = ip.p.impls.get((t.ty, "std::fmt::Write", "write_str"))
        if i is not None:
            for s, v in ip.call(st, i, [sink, rope], ctx):
                yield s, v if isinstance(v, Panic) else v.v == 0
            return
    raise Abandon("sink %r" % (t,))


def pad_spec(ip, st, rope, spec):
    if spec == SPEC0:
        return rope
    flags, width, prec = spec
    lit = rope.lit()
    if lit is not None:
        fill, align, zero = " ", None, False
        if flags is not None:
            fill = chr(flags & 0x1fffff)
            align = (flags >> 29) & 3
        if prec is not None:
            lit = lit[:prec]
        if width and len(lit) < width:
            n = width - len(lit)
            if align in (None, 3, 0):
                lit = lit + fill * n
            elif align == 1:
                lit = fill * n + lit
            else:
                lit = fill * (n // 2) + lit + fill * (n - n // 2)
        return R(lit)
    t = T("pad", rope, spec)
    lo, hi = st.irange(st.rlen(rope))
    cs = 0
    for x in rope.s:
        cs |= st.seg_cs(x)
    return mk_rope([Ap(t, cs | bits(" 0"), max(lo, (width or 0)), max(hi, (width or 0) * 4))])


def int_rope(ip, st, v, spec=SPEC0, base=10):
    v = st.nint(v)
    flags, width, prec = spec
    if isinstance(v, int):
        if base == 10:
            s = str(v)
        else:
            s = format(v, {16: "x", 8: "o", 2: "b"}[abs(base)])
            if base < 0:
                s = s.upper()
        if flags is not None:
            if flags & (1 << 21) and v >= 0:
                s = "+" + s
            if width and flags & (1 << 24) and len(s) < width:
                sg = s[0] if s[0] in "+-" else ""
                s = sg + s[len(sg):].rjust(width - len(sg), "0")
            elif width and len(s) < width:
                al = (flags >> 29) & 3
                fill = chr(flags & 0x1fffff)
                n = width - len(s)
                s = s + fill * n if al == 0 else fill * (n // 2) + s + fill * (n - n // 2) if al == 2 else fill * n + s
        elif width:
            s = s.rjust(width)
        return R(s)
    lo, hi = st.irange(v)
    if spec != SPEC0 or base != 10:
        return mk_rope([Ap(T("decf", v, spec, base), ALNUM | bits("-+ "), max(1, width or 0), 40)])
    n = max(len(str(lo)), len(str(hi)))
    return mk_rope([Ap(T("dec", v), DIGITS | (bits("-") if lo < 0 else 0), 1, n)])


def fmt_into(ip, st, sink, kind, t, v, spec, ctx):
    """format a value; yields (state, True (written) / False (sink failed) / Panic)"""
    tr = {"disp": "std::fmt::Display", "dbg": "std::fmt::Debug"}.get(kind)
    while t is not None and ip.p.types[t]["k"] in ("ref", "ptr") or isinstance(v, (Ref, Mut)) and t is None:
        if t is not None:
            t = ip.p.types[t]["to"]
        v = val1(ip, st, v)
    if t is not None and tyk(ip, t) == "std::boxed::Box":
        t = ip.p.types[t]["args"][0]
        v = val(ip, st, v)
    if isinstance(v, (Ref, Mut)):
        # the value of a reference to t is a reference
        v = val1(ip, st, v)
    if t is not None and is_local(ip, t):
        i = ip.p.impls.get((t, tr, "fmt"))
        if i is None:
            raise Abandon("no %s for %s" % (tr, ip.p.tname(t)))
        ip.nframe += 1
        c = (ip.nframe, "fmtr")
        st.cells[c] = N("fmtr", sink, spec)
        for s, r in ip.call(st, i, [Ref(v), Mut(c, ())], ctx):
            s.cells.pop(c, None)
            yield s, r if isinstance(r, Panic) else r.v == 0
        return
    if isinstance(v, N) and v.k == "args":
        yield from write_args(ip, st, sink, v, ctx)
        return
    if isinstance(val(ip, st, v), float) and kind in ("disp", "dbg"):
        import nmore
        yield from sink_write(ip, st, sink, nmore.float_rope(val(ip, st, v), spec, ip.p.types[t]["bits"] if t is not None else 64, kind == "dbg"), ctx)
        return
    if kind == "dbg":
        import nmore
        d = nmore.debug_value(ip, st, t, v) if not (spec[0] or 0) & (1 << 23) else None
        if d is not None:
            yield from sink_write(ip, st, sink, pad_spec(ip, st, d, spec), ctx)
            return
        yield from sink_write(ip, st, sink, mk_rope([Ap(T("debug", hashable(v)), ALL, 0, BIG)]), ctx)
        return
    v0 = val(ip, st, v)
    if isinstance(v0, A) and tyk(ip, t) == "std::borrow::Cow":
        v0 = text(ip, st, v0)
    k = tyk(ip, t)
    if isinstance(v0, Rope):
        yield from sink_write(ip, st, sink, pad_spec(ip, st, st.norm(v0), spec), ctx)
        return
    if isinstance(v0, ChS) or k == "char":
        yield from sink_write(ip, st, sink, pad_spec(ip, st, ch_rope(st, v0), spec), ctx)
        return
    if isinstance(v0, B) or isinstance(v0, bool) and k == "bool":
        for s, x in decide(st, v0):
            yield from sink_write(ip, s, sink, pad_spec(ip, s, R("true" if x else "false"), spec), ctx)
        return
    if isinstance(v0, (int, Lin)):
        base = {"disp": 10, "hex": 16, "HEX": -16, "oct": 8, "bin": 2}.get(kind, 10)
        yield from sink_write(ip, st, sink, int_rope(ip, st, v0, spec, base), ctx)
        return
    import ntime
    r = ntime.display(ip, st, v0, t)
    if r is not None:
        for s, x in r:
            # the pieces are written one after the other
            yield from sink_write(ip, s, sink, pad_spec(ip, s, x, spec), ctx)
        return
    if k.startswith("chrono") or k.startswith("nom") or k.startswith("std::") or k.startswith("iso8601"):
        yield from sink_write(ip, st, sink, mk_rope([Ap(T("display", hashable(v0)), ALL, 0, BIG)]), ctx)
        return
    raise Abandon("formatting %r of type %s" % (v0, k))


def hashable(v):
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


@path("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_lower_hex",
      "std::fmt::rt::Argument::new_upper_hex", "std::fmt::rt::Argument::new_octal", "std::fmt::rt::Argument::new_binary",
      "std::fmt::rt::Argument::new_lower_exp")
def arg_new(ip, st, a, I, ctx):
    k = {"new_display": "disp", "new_debug": "dbg", "new_lower_hex": "hex", "new_upper_hex": "HEX", "new_octal": "oct",
         "new_binary": "bin"}.get(I["method"], "dbg")
    t = I["args"][0] if I["args"] else None
    # a shared reference to the argument: its value now
    return N("arg", k, t, val1(ip, st, a[0]))


@path("std::fmt::rt::Argument::from_usize")
def arg_usize(ip, st, a, I, ctx):
    return N("arg", "usize", None, val(ip, st, a[0]))


@path("std::fmt::rt::Argument::none")
def arg_none(ip, st, a, I, ctx):
    return Seq(())


@path("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const", "std::fmt::rt::<impl std::fmt::Arguments<'_>>::new_const",
      "std::fmt::Arguments::from_str_nonconst")
def args_from_str(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if isinstance(v, Seq):
        return N("args", tuple(("lit", text(ip, st, x).lit()) for x in v.e))
    return N("args", (("lit", text(ip, st, v).lit()),))


@path("std::fmt::Arguments::new", "std::fmt::Arguments::new_v1")
def args_new(ip, st, a, I, ctx):
    tpl = val(ip, st, a[0])
    vals = val(ip, st, a[1]).e
    if isinstance(tpl, Rope):
        b = tpl.lit().encode()
    elif isinstance(tpl, Bytes):
        b = tpl.r.lit().encode()
    else:
        b = bytes(tpl.e)
    out = []
    i = 0
    ai = 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(("lit", b[i:i + n].decode()))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", b[i:i + ln].decode()))
            i += ln
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                width = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 8:
                ai = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if n & 16:
                width = vals[width].f[2]
            if n & 32:
                prec = vals[prec].f[2]
            out.append(("arg", vals[ai], (flags, width, prec)))
            ai += 1
    return N("args", tuple(out))


def write_args(ip, st, sink, args, ctx, i=0):
    """yields (state, True/False/Panic)"""
    ps = args.f[0]
    if i == len(ps):
        yield st, True
        return
    p = ps[i]
    if p[0] == "lit":
        g = sink_write(ip, st, sink, R(p[1]), ctx)
    else:
        _, t, v = p[1].f[0], p[1].f[1], p[1].f[2]
        g = fmt_into(ip, st, sink, p[1].f[0], t, v, p[2], ctx)
    for s, r in g:
        if r is True:
            yield from write_args(ip, s, sink, args, ctx, i + 1)
        else:
            yield s, r


def res_unit(r):
    if isinstance(r, Panic):
        return r
    return ok(UNIT) if r else err(UNIT)


@trait("std::fmt::Write::write_fmt")
@path("std::fmt::write", "std::fmt::Formatter::write_fmt")
def write_fmt(ip, st, a, I, ctx):
    for s, r in write_args(ip, st, a[0], val(ip, st, a[1]), ctx):
        yield s, res_unit(r)


@trait("std::fmt::Write::write_str")
@sel
def t_write_str(ip, I, s, k, base):
    if is_local(ip, base) and k != "ref":
        return None
    return write_str


@path("std::fmt::Formatter::write_str", "std::fmt::Formatter::pad")
def write_str(ip, st, a, I, ctx):
    for s, r in sink_write(ip, st, a[0], text(ip, st, a[1]), ctx):
        yield s, res_unit(r)


@trait("std::fmt::Write::write_char")
@sel
def t_write_char(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness"):
        return None

    def f(ip, st, a, I, ctx):
        for s2, r in sink_write(ip, st, a[0], ch_rope(st, a[1]), ctx):
            yield s2, res_unit(r)
    return f


@trait("std::fmt::Display::fmt", "std::fmt::Debug::fmt")
@sel
def t_fmt(ip, I, s, k, base):
    if I["krate"] in ("icalendar", "icalharness"):
        return None
    kind = "disp" if I["trait"].endswith("Display") else "dbg"

    def f(ip, st, a, I, ctx):
        sp = SPEC0
        fm = val(ip, st, a[1])
        if isinstance(fm, N) and fm.k == "fmtr":
            sp = fm.f[1]
        for s2, r in fmt_into(ip, st, a[1], kind, s, val1(ip, st, a[0]), sp, ctx):
            yield s2, res_unit(r)
    return f


def dbg_opaque(ip, st, a, I, ctx):
    for s, r in sink_write(ip, st, a[0], mk_rope([Ap(T("debug", I["method"], len(st.log)), ALL, 0, BIG)]), ctx):
        yield s, res_unit(r)


for _m in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish",
           "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish",
           "debug_tuple_field3_finish", "debug_tuple_fields_finish", "debug_c_like_enum_write_str"):
    P["std::fmt::Formatter::" + _m] = dbg_opaque


@path("std::fmt::format", "std::fmt::format::format_inner")
def fmt_format(ip, st, a, I, ctx):
    ip.nframe += 1
    c = (ip.nframe, "buf")
    st.cells[c] = EMPTY
    for s, r in write_args(ip, st, Mut(c, ()), a[0], ctx):
        out = s.cells.pop(c)
        if isinstance(r, Panic):
            yield s, r
        elif r:
            yield s, s.norm(out)
        else:
            yield s, Panic("a formatting trait implementation returned an error", ip.where(ctx))


@path("std::fmt::Arguments::as_str", "std::fmt::Arguments::as_statically_known_str")
def args_as_str(ip, st, a, I, ctx):
    return NONE


@path("std::fmt::Formatter::alternate")
def fmt_alt(ip, st, a, I, ctx):
    fm = val(ip, st, a[0])
    fl = fm.f[1][0] if isinstance(fm, N) and fm.k == "fmtr" else None
    return bool(fl and fl & (1 << 23))


@path("std::io::_print", "std::io::_eprint")
def io_print(ip, st, a, I, ctx):
    ip.nframe += 1
    c = (ip.nframe, "buf")
    st.cells[c] = EMPTY
    for s, r in write_args(ip, st, Mut(c, ()), a[0], ctx):
        x = s.cells.pop(c)
        if I["path"].endswith("::_print"):
            s.cells[STDOUT] = cat(s.cells.get(STDOUT, EMPTY), x)
        yield s, r if isinstance(r, Panic) else UNIT


STDOUT = ("stdout", 0)


@path("icalharness::v::printed")
def v_printed(ip, st, args, I, ctx):
    """what has been printed so far"""
    return st.norm(st.cells.get(STDOUT, EMPTY))


import nstr      # noqa: E402,F401
import niter     # noqa: E402,F401
import nmap      # noqa: E402,F401
import ntime     # noqa: E402,F401
import nnom      # noqa: E402,F401
import nmore     # noqa: E402,F401
import neffects  # noqa: E402,F401
