"""Further models: floats, cells, shared boxes, double-ended queues, and less common methods."""
import math
import struct
from natives import *
from natives import P, TR
import natives as _nat
import ropes
from ropes import decide, Infeasible, resolve_ch
from niter import into_it, gather, map_order, nxt, END
from nstr import ST, SN, CH, get_range, range_of, pattern, pat_starts, pat_ends, parse_int, rtake_while
from nmap import known, VN, SL, ord_val, map_insert, both
from nstr import ASCII_ATOMS


# ------------------------------------------------------------------ text
def strip_many(ip, st, r, p, fn, n=0):
    """removes a pattern from one end, any number of times"""
    if n > 40:
        raise Abandon("trimming a longer text any number of times")
    for s, rest in fn(ip, st, r, p):
        if rest is None:
            yield s, s.norm(r)
        else:
            yield from strip_many(ip, s, rest, p, fn, n + 1)


_trim0 = P[ST + "trim_start_matches"]


def str_trim_pat(ip, st, a, I, ctx):
    m = norm_path(I["path"]).split("::")[-1]
    p = pattern(ip, st, a[1], ctx)
    if p[0] == "cls" or p[0] == "lit" and len(p[1]) == 1 and is_single(atom_of(ord(p[1]))):
        yield from _trim0(ip, st, a, I, ctx)
        return
    r = text(ip, st, a[0])
    if p[0] == "lit" and not p[1]:
        yield st, r
        return
    if p[0] != "lit":
        raise Abandon("trimming a text that is not fixed")
    yield from strip_many(ip, st, r, p, pat_ends if "end" in m or "right" in m else pat_starts)


for _m in ("trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches"):
    P[ST + _m] = str_trim_pat


@path(ST + "rsplitn")
def str_rsplitn(ip, st, a, I, ctx):
    n = known(st, a[1])
    r = text(ip, st, a[0])
    p = pattern(ip, st, a[2], ctx)
    out = []

    def go(s, r, k, acc):
        from nstr import pat_rfind
        if k == 0:
            yield s, N("list", acc)
            return
        if k == 1:
            yield s, N("list", acc + (s.norm(r),))
            return
        for s2, g in pat_rfind(ip, s, r, p):
            if g is None:
                yield s2, N("list", acc + (s2.norm(r),))
            else:
                yield from go(s2, g[0], k - 1, acc + (g[2],))
    yield from go(st, r, n, ())


DEBUG_ESC = {ord('"'): '\\"', ord("\\"): "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", 0: "\\0"}
PLAINPRINT = ASCII_ATOMS & ~sum(1 << i for i in list(range(32)) + [127])


def debug_rope(st, r):
    """{:?} of a text; None when a character's printing is not known"""
    from nstr import hom_chars
    r = st.norm(r)
    if r.lit() is not None:
        out = ""
        for c in r.lit():
            o = ord(c)
            if o in DEBUG_ESC:
                out += DEBUG_ESC[o]
            elif o < 32 or o == 127:
                out += "\\u{%x}" % o
            elif o < 128 or c.isalnum():
                out += c
            else:
                return None
        return R('"' + out + '"')
    okcs = PLAINPRINT | bits("\n\r\t\0")
    for x in r.s:
        if st.seg_cs(x) & ~okcs:
            return None
    return cat(R('"'), hom_chars(st, r, tuple(sorted(DEBUG_ESC.items()))), R('"'))


def debug_value(ip, st, t, v, pretty=False):
    """{:?} of plain values; None when not covered"""
    while t is not None and ip.p.types[t]["k"] in ("ref", "ptr"):
        t = ip.p.types[t]["to"]
        v = val1(ip, st, v)
    v = val(ip, st, v)
    k = tyk(ip, t) if t is not None else None
    if k is not None and is_local(ip, t):
        return None
    if isinstance(v, bool):
        return R("true" if v else "false")
    if is_textual(v):
        return debug_rope(st, v.r if isinstance(v, Bytes) else v) if k in ("str", "std::string::String", None) else None
    if isinstance(v, (int, Lin)) and k == "int":
        return int_rope(ip, st, v)
    if isinstance(v, int) and k == "char":
        c = chr(v)
        if v == 39:
            return R("'\\''")
        if v == 34:
            return R("'\"'")
        d = debug_rope(st, R(c))
        return None if d is None else R("'" + d.lit()[1:-1] + "'")
    if k == "std::borrow::Cow" and isinstance(v, A):
        return debug_rope(st, text(ip, st, v))
    if k in ("std::option::Option", "std::result::Result") and isinstance(v, A):
        args = ip.p.types[t]["args"]
        if k == "std::option::Option":
            if v.v == 0:
                return R("None")
            name, inner = "Some", args[0]
        else:
            name, inner = ("Ok", "Err")[v.v], args[v.v]
        d = debug_value(ip, st, inner, v.f[0])
        return None if d is None else cat(R(name + "("), d, R(")"))
    if k == "tuple" and isinstance(v, A):
        ds = [debug_value(ip, st, e, x) for e, x in zip(ip.p.types[t]["elems"], v.f)]
        if any(d is None for d in ds):
            return None
        out = []
        for i, d in enumerate(ds):
            out += [R(", ") if i else EMPTY, d]
        return cat(R("("), *out, R(",)" if len(ds) == 1 else ")"))
    if isinstance(v, Seq):
        x = ip.p.types[t] if t is not None else {}
        et = x.get("elem") if "elem" in x else (x["args"][0] if x.get("args") else None)
        if et is None:
            return None
        ds = [debug_value(ip, st, et, e) for e in v.e]
        if any(d is None for d in ds):
            return None
        out = []
        for i, d in enumerate(ds):
            out += [R(", ") if i else EMPTY, d]
        return cat(R("["), *out, R("]"))
    return None


@path(CH + "from_str", "std::char::convert::<impl std::str::FromStr for char>::from_str")
def char_from_str(ip, st, a, I, ctx):
    for s, sp in ropes.split_first(st, text(ip, st, a[0])):
        if sp is None:
            yield s, err(T("ParseCharError"))
            continue
        for s2, e in ropes.is_empty(s, sp[1]):
            yield s2, ok(sp[0]) if e else err(T("ParseCharError"))


@path(*["std::num::<impl %s>::from_str_radix" % t for t in
        ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")])
def int_radix(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("<impl ")[1].split(">")[0]
    b = {"size": 64}.get(n[1:]) or int(n[1:])
    mn, mx = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if n[0] == "i" else (0, (1 << b) - 1)
    base = known(st, a[1])
    r = text(ip, st, a[0])
    if base == 10:
        for s2, v in parse_int(ip, st, r, mn, mx):
            yield s2, err(T("ParseIntError")) if v is None else ok(v)
        return
    l = r.lit()
    if l is None:
        raise Abandon("digits of base %d" % base)
    body = l[1:] if l[:1] == "+" or l[:1] == "-" and mn < 0 else l
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]
    if not body or any(c not in digs for c in body.lower()):
        yield st, err(T("ParseIntError"))
        return
    v = int(l, base)
    yield st, ok(v) if mn <= v <= mx else err(T("ParseIntError"))


# ------------------------------------------------------------------ numbers
def _w(I):
    n = norm_path(I["path"])
    return n.split("::")[-1]


def int_ty(ip, I):
    t = next((x for x in I["args"] if isinstance(x, int)), None)
    return ip.int_info(t) if t is not None else None


@path("std::intrinsics::saturating_add", "std::intrinsics::saturating_sub")
def sat(ip, st, a, I, ctx):
    b, sg = int_ty(ip, I)
    mn, mx = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
    r = st.nint(lin_add(a[0], a[1], -1 if "sub" in I["path"] else 1))
    for s, lo in decide(st, ip.compare(st, "Lt", r, mn)):
        if lo:
            yield s, mn
        else:
            for s2, hi in decide(s, ip.compare(s, "Gt", r, mx)):
                yield s2, mx if hi else s2.nint(r)


@path("std::intrinsics::ctpop", "std::intrinsics::ctlz", "std::intrinsics::cttz", "std::intrinsics::ctlz_nonzero",
      "std::intrinsics::cttz_nonzero", "std::intrinsics::bswap", "std::intrinsics::rotate_left", "std::intrinsics::rotate_right")
def bitcount(ip, st, a, I, ctx):
    b, sg = int_ty(ip, I)
    v = known(st, a[0]) & ((1 << b) - 1)
    n = _w(I)
    if n == "ctpop":
        return bin(v).count("1")
    if n.startswith("ctlz"):
        return b - v.bit_length()
    if n.startswith("cttz"):
        return b if v == 0 else (v & -v).bit_length() - 1
    raise Abandon(n)


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def fround(x, bits):
    return f32(x) if bits == 32 else x


def float_of_bits(v, bits):
    v = int(v)
    return struct.unpack("<f", struct.pack("<I", v))[0] if bits == 32 else struct.unpack("<d", struct.pack("<Q", v))[0]


def float_op(op, a, b, bits):
    """value of an operation on floats"""
    if op == "Add":
        r = a + b
    elif op == "Sub":
        r = a - b
    elif op == "Mul":
        r = a * b
    elif op == "Div":
        if b == 0:
            r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        else:
            r = a / b
    elif op == "Rem":
        r = math.fmod(a, b) if b else math.nan
    elif op == "Eq":
        return a == b
    elif op == "Ne":
        return a != b
    elif op == "Lt":
        return a < b
    elif op == "Le":
        return a <= b
    elif op == "Gt":
        return a > b
    elif op == "Ge":
        return a >= b
    else:
        raise Abandon("operator %s on floats" % op)
    return fround(r, bits)


def float_to_int(x, mn, mx):
    if x != x:
        return 0
    if x in (math.inf, -math.inf):
        return mx if x > 0 else mn
    return max(mn, min(mx, int(x)))


FLOATRE = re.compile(r"[+-]?(?:inf|infinity|nan|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)\Z", re.I)


def parse_float(t):
    if not FLOATRE.match(t):
        return None
    return float(t)


def float_from_str(ip, st, a, I, ctx):
    n = 32 if "f32" in I["path"] else 64
    r = st.norm(text(ip, st, a[0]))
    if r.lit() is not None:
        x = parse_float(r.lit())
        yield st, err(T("ParseFloatError")) if x is None else ok(fround(x, n))
        return
    if len(r.s) == 1 and isinstance(r.s[0], Ap) and r.s[0].t.op == "dec":
        yield st, ok(T("i2f", r.s[0].t.a[0], n))
        return
    bad = ~(DIGITS | bits("+-.eE") | bits("infatyINFATY")) & ALL
    for x in r.s:
        if st.seg_cs(x) & ~bad == 0 and st.seg_min(x) > 0 or isinstance(x, str) and any((bad >> atom_of(ord(c))) & 1 for c in x):
            yield st, err(T("ParseFloatError"))
            return
    for s, v in decide(st, B("app", T("isfloat", r))):
        yield s, ok(T("fparsed", r, n)) if v else err(T("ParseFloatError"))


P["std::num::float_parse::<impl std::str::FromStr for f32>::from_str"] = float_from_str
P["std::num::float_parse::<impl std::str::FromStr for f64>::from_str"] = float_from_str
P["std::num::dec2flt::<impl std::str::FromStr for f32>::from_str"] = float_from_str
P["std::num::dec2flt::<impl std::str::FromStr for f64>::from_str"] = float_from_str


def rround(x):
    return math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)


FUN = {"floor": lambda x: math.floor(x), "ceil": lambda x: math.ceil(x), "trunc": lambda x: math.trunc(x), "round": rround,
       "abs": abs, "fract": lambda x: math.fmod(x, 1), "is_nan": lambda x: x != x, "is_finite": lambda x: not math.isinf(x) and x == x,
       "is_infinite": math.isinf, "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
       "is_sign_negative": lambda x: math.copysign(1, x) < 0, "is_sign_positive": lambda x: math.copysign(1, x) > 0,
       "signum": lambda x: math.copysign(1, x)}
FUN2 = {"max": lambda a, b: b if a != a else a if b != b else max(a, b), "min": lambda a, b: b if a != a else a if b != b else min(a, b),
        "powi": lambda a, b: a ** b, "powf": lambda a, b: a ** b, "rem_euclid": lambda a, b: a % abs(b),
        "copysign": math.copysign}


def feval(name, xs, n):
    try:
        r = FUN[name](xs[0]) if name in FUN else xs[0] * 1.0 if name == "id" else \
            max(xs[1], min(xs[2], xs[0])) if name == "clamp" else FUN2[name](*xs)
    except (OverflowError, ValueError):       # floor of an infinity or NaN
        r = xs[0]
    return r if isinstance(r, bool) else fround(float(r), n)


def _mkf(m, n):
    def f(ip, st, a, I, ctx):
        xs = [val(ip, st, x) for x in a]
        if all(isinstance(x, (float, int)) for x in xs):
            return feval(m, xs, n)
        t = T("ffun", m, n, *xs)
        return B("app", t) if m.startswith("is_") else t
    for p in ("std::f%d::<impl f%d>::", "std::num::<impl f%d>::", "std::f%d::math::"):
        P[(p % ((n,) * p.count("%d"))) + m] = f


for _n in (32, 64):
    for _m in list(FUN) + list(FUN2) + ["clamp"]:
        _mkf(_m, _n)


@path(*["std::num::<impl f%d>::total_cmp" % n for n in (32, 64)], *["std::f%d::<impl f%d>::total_cmp" % (n, n) for n in (32, 64)])
def f_total(ip, st, a, I, ctx):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    if not isinstance(x, float) or not isinstance(y, float):
        raise Abandon("order of floats")
    return A(None, (x > y) - (x < y) + 1, ())


def float_rope(x, spec, n, dbg):
    """decimal form of a float"""
    flags, width, prec = spec
    if not math.isfinite(x):
        return pad_spec(None, None, R("NaN" if x != x else "inf" if x > 0 else "-inf"), spec)
    if prec is not None:
        t = format(x, ".%df" % prec)
    else:
        for k in range(1, 18):
            t = "%.*g" % (k, x)
            if fround(float(t), n) == x:
                break
        from decimal import Decimal
        t = format(Decimal(t), "f")
        if dbg and "." not in t:
            t += ".0"
    if flags is not None and flags & (1 << 21) and not t.startswith("-"):
        t = "+" + t
    if width and len(t) < width:
        if flags is not None and flags & (1 << 24):
            sg = t[0] if t[0] in "+-" else ""
            t = sg + t[len(sg):].rjust(width - len(sg), "0")
        else:
            al = (flags >> 29) & 3 if flags is not None else 1
            fill = chr(flags & 0x1fffff) if flags is not None else " "
            d = width - len(t)
            t = t + fill * d if al == 0 else fill * (d // 2) + t + fill * (d - d // 2) if al == 2 else fill * d + t
    return R(t)


# ------------------------------------------------------------------ vectors
@path(VN + "splice")
def v_splice(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    lo, hi = range_of(ip, st, a[1])
    for s0, it in into_it(ip, st, a[2], ctx):
        for s, xs in gather(ip, s0, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
                continue
            x = ip.read_path(s, m.c, m.p).e
            l = 0 if lo is None else known(s, lo)
            h = len(x) if hi is None else known(s, hi)
            if l > h or h > len(x):
                yield s, Panic("splice range out of bounds", ip.where(ctx))
                continue
            ip.write_path(s, m.c, m.p, Seq(x[:l] + tuple(xs) + x[h:]))
            yield s, N("list", x[l:h])


@path(VN + "extend_from_within")
def v_within(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p).e
    lo, hi = range_of(ip, st, a[1])
    ip.write_path(st, m.c, m.p, Seq(x + x[0 if lo is None else known(st, lo):len(x) if hi is None else known(st, hi)]))


@path(SL + "binary_search", SL + "binary_search_by", SL + "binary_search_by_key", SL + "partition_point")
def v_bsearch(ip, st, a, I, ctx):
    x = val(ip, st, a[0]).e
    n = norm_path(I["path"]).split("::")[-1]

    def order(s, e):
        if n == "binary_search":
            yield from cmp_values(ip, s, e, val(ip, s, a[1]), None, ctx)
        elif n == "binary_search_by":
            for s2, o in ip.call_value(s, a[1], [Ref(e)], ctx):
                yield from ord_val(ip, s2, o)
        elif n == "partition_point":
            for s2, o in ip.call_value(s, a[1], [Ref(e)], ctx):
                for s3, b in decide(s2, o):
                    yield s3, -1 if b else 1
        else:
            for s2, k in ip.call_value(s, a[2], [Ref(e)], ctx):
                yield from cmp_values(ip, s2, k, val(ip, s2, a[1]), None, ctx)

    # the algorithm of the standard library: it matters for texts that are not sorted
    def go(s, base, size):
        if size == 0:
            yield s, (0 if n == "partition_point" else err(0))
            return
        if size > 1:
            half = size // 2
            for s2, c in order(s, x[base + half]):
                yield from go(s2, base if c > 0 else base + half, size - half)
            return
        for s2, c in order(s, x[base]):
            if n == "partition_point":
                yield s2, base + (c < 0)
            else:
                yield s2, ok(base) if c == 0 else err(base + (c < 0))
    yield from go(st, 0, len(x))


def _split_slice(rev):
    def f(ip, st, a, I, ctx):
        x = val(ip, st, a[0])
        if not isinstance(x, Seq):
            raise Abandon("splitting bytes")
        lim = None
        fn = a[1]
        if "splitn" in I["path"]:
            lim, fn = known(st, a[1]), a[2]

        def go(s, i, cur, out, g):
            if i == len(x.e):
                yield s, N("list", tuple(Ref(Seq(o)) for o in out + [cur]))
                return
            e = x.e[::-1][i] if rev else x.e[i]
            for s2, v, g2 in ip.call_mut(s, g, [Ref(e)], ctx):
                if isinstance(v, Panic):
                    yield s2, v
                    continue
                for s3, b in decide(s2, v):
                    if b and (lim is None or len(out) + 1 < lim):
                        yield from go(s3, i + 1, (), out + [cur], g2)
                    else:
                        yield from go(s3, i + 1, ((e,) + cur) if rev else cur + (e,), out, g2)
        yield from go(st, 0, (), [], fn)
    return f


for _m in ("split", "splitn"):
    P[SL + _m] = _split_slice(False)
for _m in ("rsplit", "rsplitn"):
    P[SL + _m] = _split_slice(True)


@path(SL + "is_sorted")
def v_sorted(ip, st, a, I, ctx):
    x = val(ip, st, a[0]).e

    def go(s, i):
        if i + 1 >= len(x):
            yield s, True
            return
        for s2, c in cmp_values(ip, s, x[i], x[i + 1], None, ctx):
            if c > 0:
                yield s2, False
            else:
                yield from go(s2, i + 1)
    yield from go(st, 0)


@trait("std::iter::DoubleEndedIterator::nth_back")
def it_nth_back(ip, st, a, I, ctx):
    from niter import with_it, nxt_back
    n = known(st, a[1])

    def go(s, it, k, put):
        for s2, i2, x in nxt_back(ip, s, it, ctx):
            if isinstance(x, Panic):
                yield s2, x
            elif x is END or k == 0:
                put(s2, i2)
                yield s2, NONE if x is END else some(x)
            else:
                yield from go(s2, i2, k - 1, put)
    for s, it, put in with_it(ip, st, a[0], ctx):
        yield from go(s, it, n, put)


def _it_sorted(ip, st, a, I, ctx):
    for s0, it in into_it(ip, st, a[0], ctx):
        for s, xs in gather(ip, s0, it, ctx):
            if isinstance(xs, Panic):
                yield s, xs
            else:
                yield from v_sorted(ip, s, [Ref(Seq(tuple(xs)))], I, ctx)


TR["std::iter::Iterator::is_sorted"] = _it_sorted


def _cycle(ip, st, a, I, ctx):
    for s, it in into_it(ip, st, a[0], ctx):
        yield s, N("cycle", it, it)


TR["std::iter::Iterator::cycle"] = _cycle


# ------------------------------------------------------------------ queues
VD = "std::collections::VecDeque::"
for _a, _b in (("new", "new"), ("with_capacity", "with_capacity"), ("push_back", "push"), ("pop_back", "pop"), ("len", "len"),
               ("is_empty", "is_empty"), ("insert", "insert"), ("truncate", "truncate"), ("clear", "clear"), ("drain", "drain"),
               ("append", "append"), ("retain", "retain"), ("split_off", "split_off"), ("resize", "resize")):
    P[VD + _a] = P[VN + _b]
for _a in ("swap", "contains", "get", "get_mut", "binary_search", "rotate_left", "rotate_right"):
    P[VD + _a] = P[SL + _a]
for _a, _b in (("front", "first"), ("back", "last"), ("front_mut", "first_mut"), ("back_mut", "last_mut")):
    def _vd(ip, st, a, I, ctx, g=P[SL + _b], nm=_b):
        J = dict(I)
        J["path"] = SL + nm
        return g(ip, st, a, J, ctx)
    P[VD + _a] = _vd
for _a in ("iter", "iter_mut"):
    P[VD + _a] = P[SL + _a]


@path(VD + "push_front")
def vd_push_front(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    ip.write_path(st, m.c, m.p, Seq((a[1],) + ip.read_path(st, m.c, m.p).e))


@path(VD + "pop_front")
def vd_pop_front(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p)
    if not x.e:
        return NONE
    ip.write_path(st, m.c, m.p, Seq(x.e[1:]))
    return some(x.e[0])


@path(VD + "remove")
def vd_remove(ip, st, a, I, ctx):
    m = mutcell(ip, st, a[0])
    x = ip.read_path(st, m.c, m.p)
    i = known(st, a[1])
    if i >= len(x.e):
        return NONE
    ip.write_path(st, m.c, m.p, Seq(x.e[:i] + x.e[i + 1:]))
    return some(x.e[i])


@path(VD + "make_contiguous", VD + "as_mut_slices")
def vd_contig(ip, st, a, I, ctx):
    return a[0]


# ------------------------------------------------------------------ ordered maps
@path("std::collections::BTreeMap::pop_first", "std::collections::BTreeMap::pop_last", "std::collections::BTreeSet::pop_first",
      "std::collections::BTreeSet::pop_last")
def m_pop(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)
    first = norm_path(I["path"]).endswith("first")
    for s, e in map_order(ip, st, m, ctx):
        if not e:
            yield s, NONE
            continue
        x = e[0] if first else e[-1]
        ip.write_path(s, c.c, c.p, MapV(m.k, e[1:] if first else e[:-1]))
        yield s, some(x[0] if "Set" in I["path"] else tup(*x))


@path("std::collections::BTreeSet::first", "std::collections::BTreeSet::last")
def s_first(ip, st, a, I, ctx):
    first = norm_path(I["path"]).endswith("first")
    for s, e in map_order(ip, st, val(ip, st, a[0]), ctx):
        yield s, some(Ref(e[0 if first else -1][0])) if e else NONE


@path("std::collections::BTreeMap::range", "std::collections::BTreeSet::range")
def m_range(ip, st, a, I, ctx):
    m = val(ip, st, a[0])
    r = val(ip, st, a[1])
    p = ip.p.types[r.ty]["path"].split("::")[-1] if isinstance(r, A) and r.ty is not None else None
    lo = hi = None
    inc = False
    if p == "Range":
        lo, hi = r.f[:2]
    elif p == "RangeFrom":
        lo = r.f[0]
    elif p == "RangeTo":
        hi = r.f[0]
    elif p == "RangeInclusive":
        lo, hi, inc = r.f[0], r.f[1], True
    elif p == "RangeToInclusive":
        hi, inc = r.f[0], True
    elif p != "RangeFull":
        raise Abandon("range of keys")

    def go(s, es, i, acc):
        if i == len(es):
            yield s, N("list", acc)
            return
        k, v = es[i]
        item = Ref(k) if "Set" in I["path"] else tup(Ref(k), Ref(v))

        def upper(s2):
            if hi is None:
                yield s2, True
                return
            for s3, c in cmp_values(ip, s2, k, val(ip, s2, hi), None, ctx):
                yield s3, c < 0 or inc and c == 0
        for s2, c in (cmp_values(ip, s, k, val(ip, s, lo), None, ctx) if lo is not None else [(s, 1)]):
            if c < 0:
                yield from go(s2, es, i + 1, acc)
                continue
            for s3, u in upper(s2):
                yield from go(s3, es, i + 1, acc + (item,) if u else acc)
    for s, es in map_order(ip, st, m, ctx):
        yield from go(s, es, 0, ())


def _setop(name):
    def f(ip, st, a, I, ctx):
        x, y = val(ip, st, a[0]), val(ip, st, a[1])

        def member(s, m, k):
            for s2, i in _nat.map_find(ip, s, m, k, ctx):
                yield s2, i is not None

        def go(s, es, i, acc):
            if i == len(es):
                yield s, acc
                return
            k, side = es[i]
            for s2, b in member(s, y if side == 0 else x, val(ip, s, k)):
                keep = {"difference": not b, "intersection": b, "union": side == 0 or not b, "symmetric_difference": not b}[name]
                yield from go(s2, es, i + 1, acc + ((k, UNIT),) if keep else acc)
        es = [(k, 0) for k, _ in x.e]
        if name in ("union", "symmetric_difference"):
            es += [(k, 1) for k, _ in y.e]
        for s, acc in go(st, es, 0, ()):
            for s2, e in map_order(ip, s, MapV(x.k, acc), ctx):
                yield s2, N("list", tuple(Ref(k) for k, _ in e))
    for c in ("BTreeSet", "HashSet"):
        P["std::collections::%s::%s" % (c, name)] = f


for _n in ("difference", "intersection", "union", "symmetric_difference"):
    _setop(_n)


@path("std::collections::BTreeSet::is_subset", "std::collections::HashSet::is_subset", "std::collections::BTreeSet::is_superset",
      "std::collections::HashSet::is_superset", "std::collections::BTreeSet::is_disjoint", "std::collections::HashSet::is_disjoint")
def s_sub(ip, st, a, I, ctx):
    n = norm_path(I["path"]).split("::")[-1]
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    if n == "is_superset":
        x, y = y, x

    def go(s, i):
        if i == len(x.e):
            yield s, True
            return
        for s2, j in _nat.map_find(ip, s, y, val(ip, s, x.e[i][0]), ctx):
            if (j is None) == (n == "is_disjoint"):
                yield from go(s2, i + 1)
            else:
                yield s2, False
    yield from go(st, 0)


@path("std::collections::BTreeSet::retain", "std::collections::HashSet::retain")
def s_retain(ip, st, a, I, ctx):
    c = mutcell(ip, st, a[0])
    m = ip.read_path(st, c.c, c.p)

    def go(s, es, i, acc, fn):
        if i == len(es):
            ip.write_path(s, c.c, c.p, MapV(m.k, acc))
            yield s, UNIT
            return
        for s2, v, g in ip.call_mut(s, fn, [Ref(es[i][0])], ctx):
            for s3, b in decide(s2, v):
                yield from go(s3, es, i + 1, acc + (es[i],) if b else acc, g)
    for s, es in map_order(ip, st, m, ctx):
        yield from go(s, es, 0, (), a[1])


def coll_from(ip, st, a, I, ctx):
    from niter import from_iter
    t = I["self"]
    for s, it in into_it(ip, st, a[0], ctx):
        yield from from_iter(ip, s, it, t, ctx)


for _c in ("BTreeMap", "HashMap", "BTreeSet", "HashSet", "VecDeque"):
    for _p in ("<std::collections::%s<T> as std::convert::From<[T; N]>>::from", "<std::collections::%s<K, V> as std::convert::From<[(K, V); N]>>::from",
               "<std::collections::%s<T, std::hash::RandomState> as std::convert::From<[T; N]>>::from",
               "<std::collections::%s<K, V, std::hash::RandomState> as std::convert::From<[(K, V); N]>>::from"):
        P[_p % _c] = coll_from


# ------------------------------------------------------------------ shared values
@path("std::cell::Cell::new", "std::cell::RefCell::new", "std::sync::Mutex::new", "std::sync::RwLock::new", "std::cell::OnceCell::new",
      "std::sync::atomic::AtomicUsize::new", "std::sync::atomic::AtomicU32::new", "std::sync::atomic::AtomicU64::new",
      "std::sync::atomic::AtomicBool::new")
def cell_new(ip, st, a, I, ctx):
    ip.nframe += 1
    c = (ip.nframe, "cell")
    st.cells[c] = a[0] if a else NONE
    return N("cell", c)


def cellof(ip, st, v):
    v = val(ip, st, v)
    if not (isinstance(v, N) and v.k == "cell"):
        raise Abandon("cell %r" % (v,))
    return v.f[0]


@path("std::cell::Cell::get", "std::cell::RefCell::into_inner", "std::cell::Cell::into_inner", "std::cell::OnceCell::into_inner")
def cell_get(ip, st, a, I, ctx):
    return st.cells[cellof(ip, st, a[0])]


@path("std::cell::Cell::set")
def cell_set(ip, st, a, I, ctx):
    st.cells[cellof(ip, st, a[0])] = a[1]


@path("std::cell::Cell::replace", "std::cell::RefCell::replace")
def cell_replace(ip, st, a, I, ctx):
    c = cellof(ip, st, a[0])
    old = st.cells[c]
    st.cells[c] = a[1]
    return old


@path("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut", "std::cell::RefCell::get_mut", "std::cell::Cell::get_mut")
def cell_borrow(ip, st, a, I, ctx):
    c = cellof(ip, st, a[0])
    m = norm_path(I["path"]).split("::")[-1]
    return Ref(st.cells[c]) if m == "borrow" else Mut(c, ())


def _guard_deref(ip, st, a, I, ctx):
    return val1(ip, st, a[0]) if isinstance(val1(ip, st, a[0]), (Ref, Mut)) else a[0]


for _g in ("Ref", "RefMut"):
    for _t in ("Deref::deref", "DerefMut::deref_mut"):
        P["<std::cell::%s<'_, T> as std::ops::%s>" % (_g, _t.split("::")[0]) + "::" + _t.split("::")[1]] = _guard_deref
        P["<std::cell::%s<'b, T> as std::ops::%s>" % (_g, _t.split("::")[0]) + "::" + _t.split("::")[1]] = _guard_deref


def _box_deref(ip, st, a, I, ctx):
    v = a[0]
    if isinstance(v, Mut):
        return v
    w = val1(ip, st, v)
    if isinstance(w, (Bx,)):
        return Ref(w.v)
    return w if is_textual(w) or isinstance(w, Ref) else Ref(w)


for _g in ("std::rc::Rc", "std::sync::Arc"):
    P["<%s<T, A> as std::ops::Deref>::deref" % _g] = _box_deref
    P["<%s<T, A> as std::convert::AsRef<T>>::as_ref" % _g] = _box_deref
    P["<%s<T, A> as std::borrow::Borrow<T>>::borrow" % _g] = _box_deref
    P["<%s<T, A> as std::clone::Clone>::clone" % _g] = lambda ip, st, a, I, ctx: val1(ip, st, a[0])
    P["<%s<str> as std::convert::From<&str>>::from" % _g] = lambda ip, st, a, I, ctx: text(ip, st, a[0])
    P["<%s<str> as std::convert::From<std::string::String>>::from" % _g] = lambda ip, st, a, I, ctx: text(ip, st, a[0])
    P[_g + "::clone"] = lambda ip, st, a, I, ctx: val1(ip, st, a[0])


for _p in ("std::string::String::into_boxed_str", "std::str::<impl str>::into_string", "std::string::String::leak"):
    P[_p] = lambda ip, st, a, I, ctx: text(ip, st, a[0])


@path("std::intrinsics::is_val_statically_known")
def no_static(ip, st, a, I, ctx):
    return False
