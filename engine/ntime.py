"""Models of the date, time, duration and identifier types of the dependencies.

Values: N("date", y, m, d), N("time", h, mi, s, ns), N("ndt", date, time), N("utc", ndt),
N("zdt", tz, ndt) (an instant, given by a local time and a zone), N("tz", name),
N("dur", secs, ns) (chrono), N("isod", secs, ns) (iso8601), N("stdd", secs, ns) (std)."""
import datetime
import re
from dom import *
import ropes
from ropes import decide, Infeasible
from interp import NONE, some, ok, err, tup
from natives import P, TR, path, trait, sel, val, text, tyk, norm_path, mkref, do_panic, R, eq_values

M = {}      # "Type::method" -> model
MT = {}     # ("trait::method", type kind) -> model


def m(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def mt(*keys):
    def d(f):
        for k in keys:
            MT[k] = f
        return f
    return d


def tname(ip, t):
    if t is None:
        return "?"
    t = ip.p.strip_refs(t)
    x = ip.p.types[t]
    if x["k"] == "adt":
        n = x["path"].split("::")[-1]
        if n == "DateTime":
            a = [ip.p.types[y] for y in x["args"]]
            if a and a[0]["k"] == "adt":
                return "DateTime<%s>" % a[0]["path"].split("::")[-1]
        return n
    return x["k"]


def lookup(ip, I, np):
    tr = I.get("trait")
    if tr:
        key = tr.split("::")[-1] + "::" + I["method"]
        s = tname(ip, I["self"])
        f = MT.get((key, s)) or MT.get((key, s.split("<")[0]))
        if f is None and I["krate"] in ("chrono", "chrono_tz"):
            f = MT.get((key, "*"))
        return f
    parts = np.split("::")
    f = M.get("::".join(parts[-2:]))
    if f is None:
        f = M.get("*::" + parts[-1] if I["krate"] == "?" else "")
    return f


# ------------------------------------------------------------------ values
def mk_date(y, mo, d):
    return N("date", y, mo, d)


def mk_time(h, mi, s, ns=0):
    return N("time", h, mi, s, ns)


def isym(st, name, lo, hi, t=None):
    """a number; t is the term it is a field of"""
    id = "int:" + name
    if id not in st.syms:
        st.syms[id] = Sym("i", lo=lo, hi=hi, df=None if t is None else T("field", t, name.rsplit(".", 1)[1]))
    return st.nint(mk_lin(0, {id: 1}))


def sym_date(st, name, t=None):
    return mk_date(isym(st, name + ".Y", 0, 9999, t), isym(st, name + ".m", 1, 12, t), isym(st, name + ".d", 1, 31, t))


def sym_time(st, name, ns=False, t=None):
    return mk_time(isym(st, name + ".H", 0, 23, t), isym(st, name + ".M", 0, 59, t), isym(st, name + ".S", 0, 59, t),
                   isym(st, name + ".ns", 0, 999999999, t) if ns else 0)


def sym_ndt(st, name, ns=False, t=None):
    return N("ndt", sym_date(st, name, t), sym_time(st, name, ns, t))


def term_ndt(st, t, ns=False):
    """the local time a term stands for"""
    return sym_ndt(st, "%s%x" % (t.op, hash(t) & 0xffffffffffff), ns, t)


def term_date(st, t):
    return sym_date(st, "%s%x" % (t.op, hash(t) & 0xffffffffffff), t)


@path("icalharness::v::date")
def v_date(ip, st, a, I, ctx):
    return sym_date(st, a[0].lit())


@path("icalharness::v::ndt")
def v_ndt(ip, st, a, I, ctx):
    return sym_ndt(st, a[0].lit())


@path("icalharness::v::ndt_ns")
def v_ndt_ns(ip, st, a, I, ctx):
    return sym_ndt(st, a[0].lit(), True)


@path("icalharness::v::utc")
def v_utc(ip, st, a, I, ctx):
    return N("utc", sym_ndt(st, a[0].lit()))


@path("icalharness::v::dur")
def v_dur(ip, st, a, I, ctx):
    name = a[0].lit()
    id = "int:" + name
    st.syms[id] = Sym("i", lo=st.nint(a[1]), hi=st.nint(a[2]))
    return N("dur", st.nint(mk_lin(0, {id: 1})), 0)


@path("icalharness::v::tz")
def v_tz(ip, st, a, I, ctx):
    id = a[0].lit()
    st.syms[id] = Sym("s", cs=CLASSES["tzname"], lo=1, hi=40)
    r = Rope((Sy(id),))
    st.fact(B("app", T("knowntz", r)), True)
    return N("tz", r)


def fresh_ndt(st, tag):
    State._n += 1
    return sym_ndt(st, "%s#%d" % (tag, State._n), True)


@m("Utc::now", "Local::now")
def utc_now(ip, st, a, I, ctx):
    st.log = st.log + (("clock",),)
    return N("utc", fresh_ndt(st, "now"))


@path("uuid::v4::<impl uuid::Uuid>::new_v4")
@m("Uuid::new_v4")
def uuid_new(ip, st, a, I, ctx):
    State._n += 1
    st.log = st.log + (("random",),)
    return N("uuid", T("uuid", State._n))


# ------------------------------------------------------------------ formatting
SPECS = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2}
EXPAND = {"F": "%Y-%m-%d", "T": "%H:%M:%S", "R": "%H:%M", "D": "%m/%d/%y", "X": "%H:%M:%S", "x": "%m/%d/%y", "n": "\n", "t": "\t", "%": "%"}


def items(fmt):
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c == "%" and i + 1 < len(fmt):
            k = fmt[i + 1]
            if k in ("n", "t", "%"):
                out.append(("lit", EXPAND[k]))
                i += 2
                continue
            if k in EXPAND:
                out.extend(items(EXPAND[k]))
                i += 2
                continue
            if k in "-_0" and i + 2 < len(fmt):
                out.append(("num", fmt[i + 2], k))
                i += 3
                continue
            out.append(("num", k, None))
            i += 2
        else:
            out.append(("lit", c))
            i += 1
    return out


def fields(st, v):
    """spec letter -> value"""
    f = {}
    if v.k == "utc":
        f["tz"] = "Z"
        v = v.f[0]
    if v.k == "zdt":
        v = v.f[1]
    if v.k == "ndt":
        d, t = v.f
    elif v.k == "date":
        d, t = v, None
    else:
        d, t = None, v
    if d is not None:
        f["Y"], f["m"], f["d"] = d.f
    if t is not None:
        f["H"], f["M"], f["S"] = t.f[:3]
        f["ns"] = t.f[3]
    return f


def pad_num(st, v, w, padc="0"):
    v = st.nint(v)
    if isinstance(v, int):
        if padc == "-":
            return str(v)
        return str(v).rjust(w, "0" if padc in ("0", None) else " ")
    lo, hi = st.irange(v)
    if padc in ("0", None) and 0 <= lo and hi < 10 ** w:
        return Ap(T("pad", v, w), DIGITS, w, w)
    return Ap(T("padx", v, w, padc), DIGITS | bits("-+ "), 1, 12)


def format_rope(ip, st, v, fmt):
    f = fields(st, v)
    out = []
    for it in items(fmt):
        if it[0] == "lit":
            out.append(it[1])
            continue
        k, padc = it[1], it[2]
        if k in SPECS and k in f:
            out.append(pad_num(st, f[k], SPECS[k], padc))
        elif k in SPECS:
            return None
        elif k == "Z" and "tz" in f:
            out.append("UTC")
        elif k == "z" and "tz" in f:
            out.append("+0000")
        else:
            out.append(Ap(T("strf", k, padc, v), ALL & ~bits("\r\n"), 0, 40))
    return mk_rope(out)


def display(ip, st, v, t):
    """rope of a value of these types, or None"""
    if not isinstance(v, N):
        return None
    if v.k == "dfmt":
        r = format_rope(ip, st, v.f[0], v.f[1])
        if r is None:
            return iter(())
        return iter([(st, r)])
    if v.k == "date":
        return iter([(st, format_rope(ip, st, v, "%Y-%m-%d"))])
    if v.k == "uuid":
        return iter([(st, Rope((Ap(v.f[0], bits("0123456789abcdef-"), 36, 36),)))])
    if v.k == "tz":
        return iter([(st, v.f[0])])
    if v.k == "dur":
        return dur_display(ip, st, v)
    if v.k in ("ndt", "utc", "time", "zdt"):
        return iter([(st, Rope((Ap(T("tdisplay", v), ALL & ~bits("\r\n"), 1, 60),)))])
    return None


def dur_display(ip, st, v):
    secs, ns = st.nint(v.f[0]), st.nint(v.f[1])
    if ns != 0:
        if isinstance(secs, int) and isinstance(ns, int):
            neg = secs < 0
            tot = secs * 10**9 + ns
            tot = abs(tot)
            s = "PT%d" % (tot // 10**9)
            s += (".%09d" % (tot % 10**9)).rstrip("0") if tot % 10**9 else ""
            yield st, R(("-" if neg else "") + s + "S")
            return
        yield st, Rope((Ap(T("durdisp", v), DIGITS | bits("-PTS."), 3, 40),))
        return
    for s, z in decide(st, ip.compare(st, "Eq", secs, 0)):
        if z:
            yield s, R("P0D")
            continue
        for s2, neg in decide(s, ip.compare(s, "Lt", secs, 0)):
            x = s2.nint(secs)
            a = lin_scale(x, -1) if neg else x
            lo, hi = s2.irange(a)
            seg = str(a) if isinstance(a, int) else Ap(T("dec", a), DIGITS, 1, len(str(hi)))
            yield s2, mk_rope([("-" if neg else "") + "PT", seg, "S"])


@m("DateTime::format", "NaiveDateTime::format", "NaiveDate::format", "NaiveTime::format")
def dt_format(ip, st, a, I, ctx):
    f = text(ip, st, a[1]).lit()
    if f is None:
        raise Abandon("format string")
    return N("dfmt", val(ip, st, a[0]), f)


# ------------------------------------------------------------------ parsing
def valid_date(y, mo, d):
    try:
        datetime.date(y if 1 <= y <= 9999 else 2000 + y % 400, mo, d)
        return True
    except ValueError:
        return False


class Fail(Exception):
    pass


class Unsure(Exception):
    pass


def match_items(ip, st, rope, fmt):
    """fields read from a rope according to a format; Fail, or Unsure when not determined"""
    segs = list(rope.s)
    i, off = 0, 0

    def peek():
        """next literal character, an opaque number segment, or None at the end"""
        nonlocal i, off
        while i < len(segs) and isinstance(segs[i], str) and off >= len(segs[i]):
            i, off = i + 1, 0
        if i >= len(segs):
            return None
        x = segs[i]
        return x[off] if isinstance(x, str) else x

    got = {}
    for it in items(fmt):
        c = peek()
        if it[0] == "lit":
            if it[1].isspace():
                while isinstance(c, str) and c.isspace():
                    off += 1
                    c = peek()
                if c is not None and not isinstance(c, str):
                    if st.seg_cs(c) & bits(" \t\n\r\x0b\x0c"):
                        raise Unsure()
                continue
            if c is None:
                raise Fail()
            if isinstance(c, str):
                if c != it[1]:
                    raise Fail()
                off += 1
                continue
            if st.seg_min(c) > 0 and not (st.seg_cs(c) >> atom_of(ord(it[1]))) & 1:
                raise Fail()
            raise Unsure()
        k = it[1]
        if k not in SPECS:
            raise Unsure()
        w = SPECS[k]
        while isinstance(c, str) and c.isspace():
            off += 1
            c = peek()
        if c is None:
            raise Fail()
        if isinstance(c, str):
            if k == "Y" and c in "+-":
                raise Unsure()
            n = 0
            s = ""
            while n < w and isinstance(c, str) and c in "0123456789":
                s += c
                off += 1
                n += 1
                c = peek()
            if n == 0:
                raise Fail()
            if n < w and c is not None and not isinstance(c, str):
                if st.seg_cs(c) & DIGITS:
                    raise Unsure()
            v = int(s)
        elif isinstance(c, Ap) and c.t.op == "pad" and c.lo == w:
            v = c.t.a[0]
            i, off = i + 1, 0
        elif isinstance(c, Ap) and c.lo == c.hi == 1 and c.cs == DIGITS:
            raise Unsure()
        else:
            if st.seg_min(c) > 0:
                cs = ropes.first_cs(st, Rope(tuple(segs[i:])))
                if cs is not None and not cs & (DIGITS | bits(" \t\n\x0b\x0c\r+-") | NONASCII):
                    raise Fail()
            raise Unsure()
        if k in got and got[k] != v:
            raise Unsure()
        got[k] = v
    rest = Rope(((segs[i][off:],) if i < len(segs) and isinstance(segs[i], str) else tuple(segs[i:i + 1])) + tuple(segs[i + 1:]))
    rest = st.norm(mk_rope(rest.s))
    if rest.s:
        if any(st.seg_min(x) > 0 for x in rest.s):
            raise Fail()
        raise Unsure()
    return got


def parsed(ip, st, rope, fmt, what):
    """yields (state, value or None)"""
    rope = st.norm(rope)
    try:
        g = match_items(ip, st, rope, fmt)
    except Fail:
        yield st, None
        return
    except Unsure:
        may = 0
        for x in rope.s:
            may |= st.seg_cs(x)
        if not may & DIGITS and "%Y" in fmt:
            # no number at all
            yield st, None
            return
        if rope.s and isinstance(rope.s[0], str) and fmt.startswith("%Y"):
            l = rope.s[0].lstrip()
            if l and not re.match(r"[+-]?\d|[+-]$", l):
                # no number to begin with
                yield st, None
                return
        if rope.s and fmt.endswith("Z") and not (st.seg_cs(rope.s[-1]) if not isinstance(rope.s[-1], str) else bits(rope.s[-1][-1])) & bits("Z") and (isinstance(rope.s[-1], str) or st.seg_min(rope.s[-1]) > 0):
            yield st, None
            return
        t = T("parsed", what, fmt, rope)
        # what can be said about any text that has this form
        for s, b in decide(st, B("app", t)):
            if not b:
                yield s, None
                continue
            yield s, term_date(s, t) if what == "date" else term_ndt(s, t)
        return
    need = "Ymd" if what == "date" else "YmdHM"
    if any(k not in g for k in need):
        yield st, None
        return
    for s, d in mkdate(ip, st, g["Y"], g["m"], g["d"]):
        if d is None:
            yield s, None
            continue
        if what == "date":
            yield s, d
            continue
        for s2, t in mktime(ip, s, g["H"], g["M"], g.get("S", 0), True):
            yield s2, None if t is None else N("ndt", d, t)


def between(ip, st, v, lo, hi):
    for s, a in decide(st, ip.compare(st, "Ge", v, lo)):
        if not a:
            yield s, False
            continue
        yield from decide(s, ip.compare(s, "Le", v, hi))


def stem(x):
    """name of the symbolic date a number is a field of"""
    if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1:
        return x.t[0][0].rsplit(".", 1)
    return None


def mkdate(ip, st, y, mo, d):
    y, mo, d = st.nint(y), st.nint(mo), st.nint(d)
    if all(isinstance(x, int) for x in (y, mo, d)):
        yield st, mk_date(y, mo, d) if valid_date(y, mo, d) else None
        return
    p = [stem(x) for x in (y, mo, d)]
    if all(p) and p[0][0] == p[1][0] == p[2][0] and [x[1] for x in p] == ["Y", "m", "d"]:
        yield st, mk_date(y, mo, d)
        return
    for s, a in between(ip, st, mo, 1, 12):
        if not a:
            yield s, None
            continue
        for s2, b in between(ip, s, d, 1, 31):
            if not b:
                yield s2, None
                continue
            for s3, c in decide(s2, ip.compare(s2, "Le", d, 28)):
                if c:
                    yield s3, mk_date(y, mo, d)
                    continue
                for s4, e in decide(s3, B("app", T("validdate", y, mo, d))):
                    yield s4, mk_date(y, mo, d) if e else None


def mktime(ip, st, h, mi, sec, leap=False):
    for s, a in between(ip, st, h, 0, 23):
        if not a:
            yield s, None
            continue
        for s2, b in between(ip, s, mi, 0, 59):
            if not b:
                yield s2, None
                continue
            for s3, c in between(ip, s2, sec, 0, 59):
                if c:
                    yield s3, mk_time(h, mi, sec, 0)
                elif leap:
                    for s4, e in decide(s3, ip.compare(s3, "Eq", sec, 60)):
                        yield s4, mk_time(h, mi, 59, 10**9) if e else None
                else:
                    yield s3, None


def perr(st):
    return err(T("chrono-parse-error"))


@m("NaiveDateTime::parse_from_str")
def ndt_parse(ip, st, a, I, ctx):
    f = text(ip, st, a[1]).lit()
    for s, v in parsed(ip, st, text(ip, st, a[0]), f, "ndt"):
        yield s, perr(s) if v is None else ok(v)


@m("NaiveDate::parse_from_str")
def date_parse(ip, st, a, I, ctx):
    f = text(ip, st, a[1]).lit()
    for s, v in parsed(ip, st, text(ip, st, a[0]), f, "date"):
        yield s, perr(s) if v is None else ok(v)


@m("NaiveDateTime::parse_and_remainder", "NaiveDate::parse_and_remainder")
def parse_rem(ip, st, a, I, ctx):
    raise Abandon("parse_and_remainder")


@mt(("TimeZone::datetime_from_str", "*"))
def dt_from_str(ip, st, a, I, ctx):
    f = text(ip, st, a[2]).lit()
    if tname(ip, I["self"]) != "Utc":
        raise Abandon("datetime_from_str in a zone")
    for s, v in parsed(ip, st, text(ip, st, a[1]), f, "ndt"):
        yield s, perr(s) if v is None else ok(N("utc", v))


# ------------------------------------------------------------------ calendar arithmetic
def opt(v):
    return NONE if v is None else some(v)


@m("NaiveDate::from_ymd_opt")
def ymd_opt(ip, st, a, I, ctx):
    for s, d in mkdate(ip, st, *a):
        yield s, opt(d)


@m("NaiveDate::from_ymd")
def ymd(ip, st, a, I, ctx):
    for s, d in mkdate(ip, st, *a):
        yield s, Panic("invalid or out-of-range date", ip.where(ctx)) if d is None else d


@m("NaiveDate::and_hms_opt")
def and_hms_opt(ip, st, a, I, ctx):
    for s, t in mktime(ip, st, *a[1:]):
        yield s, NONE if t is None else some(N("ndt", val(ip, s, a[0]), t))


@m("NaiveDate::and_hms")
def and_hms(ip, st, a, I, ctx):
    for s, t in mktime(ip, st, *a[1:]):
        yield s, Panic("invalid time", ip.where(ctx)) if t is None else N("ndt", val(ip, s, a[0]), t)


@m("NaiveTime::from_hms_opt")
def hms_opt(ip, st, a, I, ctx):
    for s, t in mktime(ip, st, *a):
        yield s, opt(t)


@m("NaiveDate::and_time", "NaiveDateTime::new")
def and_time(ip, st, a, I, ctx):
    return N("ndt", val(ip, st, a[0]), val(ip, st, a[1]))


@m("NaiveDateTime::date")
def ndt_date(ip, st, a, I, ctx):
    return val(ip, st, a[0]).f[0]


@m("NaiveDateTime::time")
def ndt_time(ip, st, a, I, ctx):
    return val(ip, st, a[0]).f[1]


@m("NaiveDateTime::and_utc")
def and_utc(ip, st, a, I, ctx):
    return N("utc", val(ip, st, a[0]))


def utc_of(ip, st, v):
    """naive UTC time of an instant"""
    v = val(ip, st, v)
    if v.k == "utc":
        return v.f[0]
    if v.k == "zdt":
        t = T("toutc", v.f[0], v.f[1])
        return term_ndt(st, t)
    raise Abandon("instant of %r" % (v,))


@m("DateTime::naive_utc")
def naive_utc(ip, st, a, I, ctx):
    return utc_of(ip, st, a[0])


@m("DateTime::naive_local")
def naive_local(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    return v.f[0] if v.k == "utc" else v.f[1]


@m("DateTime::date_naive")
def date_naive(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    return (v.f[0] if v.k == "utc" else v.f[1]).f[0]


@m("DateTime::time")
def dt_time(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    return (v.f[0] if v.k == "utc" else v.f[1]).f[1]


@m("DateTime::with_timezone", "DateTime::to_utc")
def with_timezone(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if len(a) == 1:
        return N("utc", utc_of(ip, st, v))
    tz = as_tz(ip, val(ip, st, a[1]))
    if isinstance(tz, N) and tz.k == "tz":
        if v.k == "zdt" and v.f[0] == tz:
            return v
        u = utc_of(ip, st, v)
        t = T("tolocal", tz, u)
        return N("zdt", tz, term_ndt(st, t))
    return N("utc", utc_of(ip, st, v))


@m("DateTime::from_naive_utc_and_offset", "DateTime::from_utc")
def from_naive_utc(ip, st, a, I, ctx):
    if isinstance(a[1], N):
        raise Abandon("instant with an offset")
    return N("utc", val(ip, st, a[0]))


@m("DateTime::timezone", "DateTime::offset")
def dt_tz(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if v.k == "zdt":
        return v.f[0] if I["path"].endswith("timezone") else Ref(N("offset", v.f[0], v.f[1]))
    return UNIT


@mt(("OffsetName::tz_id", "*"))
def off_tzid(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if isinstance(v, N) and v.k in ("offset", "tz"):
        return v.f[0].f[0] if v.k == "offset" else v.f[0]
    raise Abandon("zone of %r" % (v,))


@mt(("OffsetName::abbreviation", "*"))
def off_abbr(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    t = Rope((Ap(T("abbr", v), ALNUM | bits("+-"), 1, 10),))
    return some(t)


@mt(("TimeZone::from_utc_datetime", "*"))
def from_utc_dt(ip, st, a, I, ctx):
    tz, v = as_tz(ip, val(ip, st, a[0])), val(ip, st, a[1])
    if isinstance(tz, N):
        t = T("tolocal", tz, v)
        return N("zdt", tz, term_ndt(st, t))
    return N("utc", v)


def local_result(ip, st, tz, v):
    """yields (state, MappedLocalTime)"""
    if not isinstance(tz, N):
        yield st, A(None, 0, (N("utc", v),))
        return
    for s, one in decide(st, B("app", T("unambiguous", tz, v))):
        if one:
            yield s, A(None, 0, (N("zdt", tz, v),))
            continue
        for s2, two in decide(s, B("app", T("ambiguous", tz, v))):
            yield s2, A(None, 1, (N("zdt", N("tzearly", *tz.f), v), N("zdt", N("tzlate", *tz.f), v))) if two else A(None, 2, ())


@mt(("TimeZone::from_local_datetime", "*"))
def from_local(ip, st, a, I, ctx):
    yield from local_result(ip, st, as_tz(ip, val(ip, st, a[0])), val(ip, st, a[1]))


@mt(("TimeZone::offset_from_local_datetime", "*"))
def off_local(ip, st, a, I, ctx):
    for s, r in local_result(ip, st, as_tz(ip, val(ip, st, a[0])), val(ip, st, a[1])):
        yield s, A(None, r.v, tuple(N("offset", *x.f) for x in r.f))


@m("NaiveDateTime::and_local_timezone")
def and_local(ip, st, a, I, ctx):
    tz = as_tz(ip, val(ip, st, a[1]))
    yield from local_result(ip, st, tz, val(ip, st, a[0]))


@mt(("TimeZone::with_ymd_and_hms", "*"))
def with_ymd_and_hms(ip, st, a, I, ctx):
    tz = as_tz(ip, val(ip, st, a[0]))
    for s, d in mkdate(ip, st, *a[1:4]):
        if d is None:
            yield s, A(None, 2, ())
            continue
        for s2, t in mktime(ip, s, *a[4:7]):
            if t is None:
                yield s2, A(None, 2, ())
            else:
                yield from local_result(ip, s2, tz, N("ndt", d, t))


for _n in ("LocalResult", "MappedLocalTime"):
    @m(_n + "::single")
    def lr_single(ip, st, a, I, ctx):
        return some(a[0].f[0]) if a[0].v == 0 else NONE

    @m(_n + "::earliest")
    def lr_earliest(ip, st, a, I, ctx):
        return some(a[0].f[0]) if a[0].v in (0, 1) else NONE

    @m(_n + "::latest")
    def lr_latest(ip, st, a, I, ctx):
        return some(a[0].f[-1]) if a[0].v in (0, 1) else NONE

    @m(_n + "::unwrap")
    def lr_unwrap(ip, st, a, I, ctx):
        yield st, a[0].f[0] if a[0].v == 0 else Panic("No such local time", ip.where(ctx))


KNOWN_ZONES = ("UTC", "GMT", "Europe/Berlin", "Europe/London", "Europe/Paris", "America/New_York", "America/Los_Angeles", "Asia/Tokyo", "Australia/Sydney")


def as_tz(ip, v):
    """a zone; a constant of the enumeration Tz stands for the zone of its name"""
    if isinstance(v, A) and v.ty is not None and not v.f:
        t = ip.p.types[v.ty]
        if t["k"] == "adt" and t["krate"] == "chrono_tz":
            n = t["variants"][v.v]["name"].replace("__", "/")
            if n in KNOWN_ZONES:
                return N("tz", R(n))
            raise Abandon("time zone " + n)
    return v


@mt(("FromStr::from_str", "Tz"))
def tz_from_str(ip, st, a, I, ctx):
    r = text(ip, st, a[0])
    lit = r.lit()
    if lit is not None:
        if lit in KNOWN_ZONES:
            yield st, ok(N("tz", r))
            return
        if lit == "" or any(c.isspace() or c in ".,;:\"'\\" for c in lit):
            yield st, err(T("tz-parse-error"))
            return
    for s, v in decide(st, B("app", T("knowntz", r))):
        yield s, ok(N("tz", s.norm(r))) if v else err(T("tz-parse-error"))


@m("Tz::name", "timezones::Tz::name")
def tz_name(ip, st, a, I, ctx):
    return as_tz(ip, val(ip, st, a[0])).f[0]


@m("Date::naive_utc", "Date::naive_local")
def date_naive_utc(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    return v if v.k == "date" else v.f[0]


@mt(("Datelike::year", "*"))
def dl_year(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["Y"]


@mt(("Datelike::month", "*"))
def dl_month(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["m"]


@mt(("Datelike::day", "*"))
def dl_day(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["d"]


@mt(("Timelike::hour", "*"))
def tl_hour(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["H"]


@mt(("Timelike::minute", "*"))
def tl_minute(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["M"]


@mt(("Timelike::second", "*"))
def tl_second(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["S"]


@mt(("Timelike::nanosecond", "*"))
def tl_ns(ip, st, a, I, ctx):
    return fields(st, val(ip, st, a[0]))["ns"]


@mt(("Timelike::with_nanosecond", "*"))
def tl_with_ns(ip, st, a, I, ctx):
    def go(v):
        if v.k == "utc":
            return N("utc", go(v.f[0]))
        if v.k == "zdt":
            return N("zdt", v.f[0], go(v.f[1]))
        if v.k == "ndt":
            return N("ndt", v.f[0], go(v.f[1]))
        return N("time", *v.f[:3], a[1])
    return some(go(val(ip, st, a[0])))


def ndt_of(v):
    """the local time of a date-time, and how to put another one in its place"""
    if v.k == "ndt":
        return v, lambda x: x
    if v.k == "utc":
        return v.f[0], lambda x: N("utc", x)
    raise Abandon("arithmetic on %s" % v.k)


def dt_plus(ip, st, v, secs):
    """a date or time that many seconds later"""
    if v.k == "date":
        secs = ip.opaque_int(st, "div", (secs, 86400)) if not isinstance(secs, int) else int(secs / 86400)
        if secs == 0:
            return v
        return term_date(st, T("dateadd", v, secs))
    n, back = ndt_of(v)
    if secs == 0:
        return v
    f = [st.nint(x) for x in n.f[0].f + n.f[1].f]
    if all(isinstance(x, int) for x in f) and isinstance(secs, int) and 1 <= f[0] <= 9999:
        try:
            r = datetime.datetime(*f[:6]) + datetime.timedelta(seconds=secs)
            return back(N("ndt", mk_date(r.year, r.month, r.day), mk_time(r.hour, r.minute, r.second, f[6])))
        except (ValueError, OverflowError):
            pass
    return back(term_ndt(st, T("dtadd", n, secs)))


@mt(("Add::add", "NaiveDate"), ("Add::add", "NaiveDateTime"), ("Add::add", "DateTime"),
    ("Sub::sub", "NaiveDate"), ("Sub::sub", "NaiveDateTime"), ("Sub::sub", "DateTime"))
def dt_add(ip, st, a, I, ctx):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    if isinstance(y, N) and y.k in ("dur", "stdd") and isinstance(y.f[1], int) and y.f[1] and x.k in ("ndt", "utc"):
        n, back = ndt_of(x)
        ns, sub = st.nint(n.f[1].f[3]), I["method"] == "sub"
        if not isinstance(ns, int):
            # the fraction stays in its second, or carries into the next (borrows from the one before)
            d = -y.f[1] if sub else y.f[1]
            base = lin_scale(st.nint(y.f[0]), -1) if sub else y.f[0]

            def gen():
                over = ip.compare(st, "Ge", lin_add(ns, d), 10**9) if d > 0 else ip.compare(st, "Lt", lin_add(ns, d), 0)
                for s, c in decide(st, over):
                    k = (1 if d > 0 else -1) if c else 0
                    r = ndt_of(dt_plus(ip, s, x, lin_add(base, k)))[0]
                    yield s, back(N("ndt", r.f[0], mk_time(*r.f[1].f[:3], s.nint(lin_add(lin_add(ns, d), -k * 10**9)))))
            return gen()
        tot = ns - y.f[1] if sub else ns + y.f[1]
        secs = lin_add(lin_scale(st.nint(y.f[0]), -1) if sub else y.f[0], tot // 10**9)
        r = ndt_of(dt_plus(ip, st, x, secs))[0]
        return back(N("ndt", r.f[0], mk_time(*r.f[1].f[:3], tot % 10**9)))
    if isinstance(y, N) and y.k in ("dur", "stdd") and y.f[1] == 0:
        return dt_plus(ip, st, x, y.f[0] if I["method"] == "add" else lin_scale(st.nint(y.f[0]), -1))
    if isinstance(y, N) and I["method"] == "sub" and x.k == y.k:
        return dt_diff(ip, st, x, y)
    raise Abandon("date arithmetic")


def dt_diff(ip, st, x, y):
    if eq_now(st, x, y):
        return N("dur", 0, 0)
    if x.k != "date":
        x, y = ndt_of(x)[0], ndt_of(y)[0]
        if x.f[1].f[3] != 0 or y.f[1].f[3] != 0:
            raise Abandon("difference of fractional times")
    return N("dur", ip.opaque_int(st, "dtdiff", (x, y), -2**45, 2**45), 0)


def eq_now(st, x, y):
    return x == y


@m("NaiveDate::checked_add_signed", "NaiveDateTime::checked_add_signed", "DateTime::checked_add_signed",
   "NaiveDate::checked_sub_signed", "NaiveDateTime::checked_sub_signed", "DateTime::checked_sub_signed")
def dt_checked(ip, st, a, I, ctx):
    y = val(ip, st, a[1])
    if y.f[1] != 0:
        raise Abandon("fractional duration")
    sub = "sub" in I["path"].split("::")[-1]
    return some(dt_plus(ip, st, val(ip, st, a[0]), lin_scale(st.nint(y.f[0]), -1) if sub else y.f[0]))


@m("NaiveDate::signed_duration_since", "NaiveDateTime::signed_duration_since", "DateTime::signed_duration_since")
def dt_since(ip, st, a, I, ctx):
    return dt_diff(ip, st, val(ip, st, a[0]), val(ip, st, a[1]))


@m("NaiveDate::succ_opt", "NaiveDate::pred_opt")
def date_next(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    return some(dt_plus(ip, st, v, 86400 if "succ" in I["path"] else -86400))


@m("DateTime::timestamp")
def dt_timestamp(ip, st, a, I, ctx):
    return ip.opaque_int(st, "timestamp", (utc_of(ip, st, a[0]),), -2**40, 2**40)


@m("DateTime::timestamp_subsec_nanos", "DateTime::timestamp_subsec_millis", "DateTime::timestamp_subsec_micros")
def dt_subsec(ip, st, a, I, ctx):
    ns = utc_of(ip, st, a[0]).f[1].f[3]
    if not isinstance(ns, int):
        raise Abandon("fraction of a time stamp")
    return ns // {"nanos": 1, "millis": 10**6, "micros": 1000}[I["path"].split("_")[-1]]


@mt(("Datelike::ordinal", "*"), ("Datelike::num_days_from_ce", "*"))
def dl_count(ip, st, a, I, ctx):
    d = date_part(val(ip, st, a[0]))
    return ip.opaque_int(st, I["method"], (d,), 1, 366 if I["method"] == "ordinal" else 2**23)


def date_part(v):
    while v.k != "date":
        v = v.f[1] if v.k == "zdt" else v.f[0]
    return v


@mt(("Datelike::year_ce", "*"))
def dl_year_ce(ip, st, a, I, ctx):
    y = date_part(val(ip, st, a[0])).f[0]
    for s, pos in decide(st, ip.compare(st, "Gt", y, 0)):
        yield s, tup(pos, y if pos else lin_add(1, y, -1))


@mt(("Timelike::num_seconds_from_midnight", "*"))
def tl_secs(ip, st, a, I, ctx):
    f = fields(st, val(ip, st, a[0]))
    return lin_add(lin_add(lin_scale(f["H"], 3600), lin_scale(f["M"], 60)), f["S"])


def with_field(n, k, x):
    """a date or time with one field replaced"""
    if n.k in ("utc",):
        return N("utc", with_field(n.f[0], k, x))
    if n.k == "ndt":
        return N("ndt", with_field(n.f[0], k, x), n.f[1]) if k in "Ymd" else N("ndt", n.f[0], with_field(n.f[1], k, x))
    i = ("Ymd" if n.k == "date" else "HMS").index(k)
    return N(n.k, *(n.f[:i] + (x,) + n.f[i + 1:]))


def _with(meth, k, lo, hi):
    @mt(("Timelike::" + meth, "*"), ("Datelike::" + meth, "*"))
    def f(ip, st, a, I, ctx):
        v = val(ip, st, a[0])
        if v.k == "zdt":
            raise Abandon("replaced field of a zoned time")
        if k in "Ymd":
            d = date_part(v)
            new = with_field(d, k, a[1]).f
            for s, r in mkdate(ip, st, *new):
                if r is None:
                    yield s, NONE
                else:
                    w = v
                    for j, x in zip("Ymd", r.f):
                        w = with_field(w, j, x)
                    yield s, some(w)
            return
        for s, okk in between(ip, st, a[1], lo, hi):
            yield s, some(with_field(v, k, a[1])) if okk else NONE


for _a in (("with_hour", "H", 0, 23), ("with_minute", "M", 0, 59), ("with_second", "S", 0, 59), ("with_year", "Y", 0, 9999), ("with_month", "m", 1, 12), ("with_day", "d", 1, 31)):
    _with(*_a)


# ------------------------------------------------------------------ durations
UNITS = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}


MAXSECS = 9223372036854775


def bounded(ip, st, v, good, bad):
    """good when v seconds (give or take the fraction) are within chrono's bounds, otherwise bad"""
    if isinstance(v, int):
        yield st, good(st) if abs(v) <= MAXSECS else bad
        return
    for s, low in decide(st, ip.compare(st, "Lt", v, -MAXSECS)):
        if low:
            yield s, bad
            continue
        for t, high in decide(s, ip.compare(s, "Gt", v, MAXSECS)):
            yield t, bad if high else good(t)


def _unit(k):
    def f(ip, st, a, I, ctx):
        v = lin_scale(st.nint(a[0]), UNITS[k])
        return bounded(ip, st, v, lambda s: N("dur", v, 0), Panic("TimeDelta::%s out of bounds" % k, ip.where(ctx)))

    def g(ip, st, a, I, ctx):
        v = lin_scale(st.nint(a[0]), UNITS[k])
        return bounded(ip, st, v, lambda s: some(N("dur", v, 0)), NONE)
    for t in ("TimeDelta", "Duration"):
        M["%s::%s" % (t, k)] = f
        M["%s::try_%s" % (t, k)] = g


for _k in UNITS:
    _unit(_k)


@m("TimeDelta::zero", "Duration::zero")
def dur_zero(ip, st, a, I, ctx):
    return N("dur", 0, 0)


@m("TimeDelta::milliseconds", "Duration::milliseconds")
def dur_ms(ip, st, a, I, ctx):
    v = st.nint(a[0])
    if not isinstance(v, int):
        raise Abandon("milliseconds")
    return N("dur", v // 1000, v % 1000 * 10**6)


@m("TimeDelta::num_seconds")
def dur_num_seconds(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if v.f[1] == 0:
        return v.f[0]
    raise Abandon("seconds of a fractional duration")


def num_unit(k):
    @m("TimeDelta::num_" + k)
    def f(ip, st, a, I, ctx):
        v = val(ip, st, a[0])
        s = st.nint(v.f[0])
        if isinstance(s, int) and v.f[1] == 0:
            return int(s / UNITS[k])
        if v.f[1] == 0:
            u = UNITS[k]
            if isinstance(s, Lin) and s.c % u == 0 and all(c % u == 0 for _, c in s.t):
                return mk_lin(s.c // u, {x: c // u for x, c in s.t})
        return ip.opaque_int(st, "div", (s, UNITS[k]), -2**40, 2**40)


for _k in ("minutes", "hours", "days", "weeks"):
    num_unit(_k)


@m("TimeDelta::num_milliseconds")
def num_ms(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    return lin_add(lin_scale(v.f[0], 1000), v.f[1] // 10**6)


@m("TimeDelta::subsec_nanos")
def subsec(ip, st, a, I, ctx):
    return val(ip, st, a[0]).f[1]


@m("TimeDelta::is_zero")
def dur_is_zero(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if v.f[1] != 0:
        return False
    return ip.compare(st, "Eq", v.f[0], 0)


@mt(("Neg::neg", "TimeDelta"))
def dur_neg(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if v.f[1] != 0:
        if isinstance(v.f[1], int):
            return N("dur", lin_add(lin_scale(v.f[0], -1), -1), 10**9 - v.f[1])
        raise Abandon("negation of a fractional duration")
    return N("dur", lin_scale(st.nint(v.f[0]), -1), 0)


@m("TimeDelta::abs")
def dur_abs(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if v.f[1] != 0:
        raise Abandon("abs of a fractional duration")
    for s, neg in decide(st, ip.compare(st, "Lt", v.f[0], 0)):
        yield s, N("dur", lin_scale(s.nint(v.f[0]), -1), 0) if neg else v


@mt(("Add::add", "TimeDelta"), ("Sub::sub", "TimeDelta"))
def dur_add(ip, st, a, I, ctx):
    x, y = val(ip, st, a[0]), val(ip, st, a[1])
    k = 1 if I["method"] == "add" else -1
    if not isinstance(x.f[1], int) or not isinstance(y.f[1], int):
        raise Abandon("fractional durations")
    n = x.f[1] + k * y.f[1]
    v = lin_add(lin_add(st.nint(x.f[0]), st.nint(y.f[0]), k), n // 10**9)
    return bounded(ip, st, v, lambda s: N("dur", v, n % 10**9), Panic("`TimeDelta` overflowed", ip.where(ctx)))


@mt(("Mul::mul", "TimeDelta"))
def dur_mul(ip, st, a, I, ctx):
    x, y = val(ip, st, a[0]), st.nint(a[1])
    if x.f[1] != 0 or not isinstance(y, int):
        raise Abandon("product of durations")
    return N("dur", lin_scale(x.f[0], y), 0)


@m("TimeDelta::from_std")
def dur_from_std(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    for s, fits in decide(st, ip.compare(st, "Le", v.f[0], 9223372036854775)):
        yield s, ok(N("dur", v.f[0], v.f[1])) if fits else err(T("out-of-range"))


@m("TimeDelta::to_std")
def dur_to_std(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    for s, neg in decide(st, ip.compare(st, "Lt", v.f[0], 0)):
        yield s, err(T("out-of-range")) if neg else ok(N("stdd", v.f[0], v.f[1]))


@path("std::time::Duration::from_secs")
def std_from_secs(ip, st, a, I, ctx):
    return N("stdd", a[0], 0)


@path("std::time::Duration::as_secs")
def std_as_secs(ip, st, a, I, ctx):
    return val(ip, st, a[0]).f[0]


@mt(("From::from", "Duration"))
def std_from_iso(ip, st, a, I, ctx):
    v = val(ip, st, a[0])
    if isinstance(v, N) and v.k == "isod":
        return N("stdd", v.f[0], v.f[1])
    raise Abandon("duration from %r" % (v,))


ISO = re.compile(r"P(?:(\d+)W|(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?(?:(T)(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:[.,](\d*))?S)?)?)")


def iso_lit(s):
    """(secs, ns) or None; None also for the forms not modelled, marked by raising"""
    mt_ = ISO.match(s)
    r = iso_fields(s, mt_) if mt_ else None
    if r is None and re.match(r"P\d{4}-?\d\d-?\d\dT", s):
        raise Abandon("alternative duration format")
    return r


def iso_fields(s, mt_):
    w, y, mo, d, t, h, mi, sec, fr = mt_.groups()
    if w is not None:
        if int(w) > 0xffffffff:
            return None
        return int(w) * 604800, 0
    if y is None and mo is None and d is None and t is None:
        return None
    tot = 0
    for i, (x, k) in enumerate(zip((y, mo, d, h, mi, sec), ISO_UNITS)):
        if x and int(x) > 0xffffffff:
            # not a number of the format: the rest is left unread
            return (tot, 0) if i > 2 or any(z is not None for z in (y, mo, d)[:i]) else None
        tot += int(x or 0) * k
    ms = int((fr or "0")[:3].ljust(3, "0")) if fr else 0
    return tot, ms * 10**6


ISO_UNITS = (365 * 86400, 30 * 86400, 86400, 3600, 60, 1)


@m("iso8601::duration", "duration::duration")
def iso_duration(ip, st, a, I, ctx):
    yield from iso_parse(ip, st, text(ip, st, a[0]))


@mt(("FromStr::from_str", "Duration"))
def iso_from_str(ip, st, a, I, ctx):
    yield from iso_parse(ip, st, text(ip, st, a[0]))


def iso_parse(ip, st, r):
    r = st.norm(r)
    lit = r.lit()
    if lit is not None:
        v = iso_lit(lit)
        yield st, err(R("Failed to parse duration: " + lit)) if v is None else ok(N("isod", *v))
        return
    # numbers embedded in a fixed form
    nums = {}
    pat = ""
    for x in r.s:
        if isinstance(x, str):
            pat += x
        elif isinstance(x, Ap) and x.t.op == "dec" and st.irange(x.t.a[0])[0] >= 0 and (not pat or not pat[-1].isdigit()):
            k = 4000000000 + len(nums)
            nums[str(k)] = x.t.a[0]
            pat += str(k)
        else:
            pat = None
            break
    if pat is not None and not re.search(r"\d{10}\d", pat):
        mm = ISO.match(pat)
        if mm and not re.match(r"P\d{4}-?\d\d$", pat):
            w, y, mo, d, t, h, mi, sec, fr = mm.groups()
            if not (w is None and y is None and mo is None and d is None and t is None):
                if fr and fr in nums:
                    raise Abandon("fraction")
                cur = st
                tot = 0
                gs = [(w, 604800)] if w is not None else list(zip((y, mo, d, h, mi, sec), ISO_UNITS))
                for i, (g, k) in enumerate(gs):
                    if g is None:
                        continue
                    v = nums.get(g)
                    if v is None:
                        v = int(g)
                    nxt = None
                    for s, okk in decide(cur, ip.compare(cur, "Le", v, 0xffffffff)):
                        if okk:
                            nxt = s
                        elif w is None and (i > 2 or any(z is not None for z in (y, mo, d)[:i])):
                            # not a number of the format: the rest is left unread
                            yield s, ok(N("isod", tot, 0))
                        else:
                            yield s, err(T("iso-error", r))
                    if nxt is None:
                        return
                    cur = nxt
                    tot = lin_add(tot, lin_scale(v, k))
                yield cur, ok(N("isod", tot, int((fr or "0")[:3].ljust(3, "0")) * 10**6 if fr else 0))
                return
        elif not mm:
            yield st, err(T("iso-error", r))
            return
    # the first character settles it in most cases
    fc = ropes.first_cs(st, r)
    if fc is not None and not fc & bits("P"):
        yield st, err(T("iso-error", r))
        return
    for s0, tail in ropes.starts_with(st, r, "P"):
      if tail is None:
        yield s0, err(T("iso-error", r))
        continue
      for s, v in decide(s0, B("app", T("isodur", r))):
        if v:
            yield s, ok(N("isod", ip.opaque_int(s, "isosecs", (r,), 0, 4294967295 * 34218061), 0))
        else:
            yield s, err(T("iso-error", r))
