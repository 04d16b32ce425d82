"""Members of an abstract state.

A failed obligation is reported only when the abstract state it failed in is known not to be
empty: some assignment of texts and numbers to the free symbols satisfies everything the state
says (class, length and range of every symbol, all relations between them). The search picks
candidate members of the abstract domain and evaluates the state's own terms on them; nothing
of the analysed program is run."""
import datetime
import random
import re
from dom import *

ZONES = ("Europe/Berlin", "America/New_York", "UTC", "Asia/Tokyo", "Etc/GMT+5")
# relations that hold or do not hold independently of everything else in the state
FREE = {"unknown"}


class Unknown(Exception):
    """the term has no evaluation"""


class No(Exception):
    """the candidate is not a member"""


def is_leaf(y):
    return y.bind is None and y.df is None


# ---------------------------------------------------------------- dates
# a local time is (Y, m, d, H, M, S, ns); 400 years are a whole number of weeks and leap cycles
EPOCH = datetime.datetime(1970, 1, 1)


def shift(y):
    """a year with the same calendar that Python can hold, and the days between the two"""
    k = 0
    while y < 1000:
        y, k = y + 400, k + 1
    while y > 9000:
        y, k = y - 400, k - 1
    return y, k * 146097


def valid_ymd(y, m, d):
    try:
        datetime.date(shift(y)[0], m, d)
        return True
    except ValueError:
        return False


def to_secs(x):
    y, off = shift(x[0])
    try:
        d = datetime.datetime(y, *x[1:6])
    except ValueError:
        raise No()
    return (d - EPOCH).days * 86400 + (d - EPOCH).seconds - off * 86400


def from_secs(n, ns=0):
    k = 0
    lo, hi = -30000000000, 220000000000
    per = 146097 * 86400
    while n < lo:
        n, k = n + per, k - 400
    while n > hi:
        n, k = n - per, k + 400
    d = EPOCH + datetime.timedelta(seconds=n)
    return (d.year + k, d.month, d.day, d.hour, d.minute, d.second, ns)


def flat(v):
    """a value of the time model as a local time"""
    if v[0] == "utc":
        return flat(v[1])
    if v[0] == "date":
        return tuple(v[1:4]) + (0, 0, 0, 0)
    if v[0] == "ndt":
        return tuple(v[1][1:4]) + tuple(v[2][1:5])
    raise Unknown(str(v[0]))


def zone(name):
    import zoneinfo
    try:
        return zoneinfo.ZoneInfo(name)
    except Exception:
        raise No()


def offsets(tz, x):
    """the UTC offsets in seconds a local time can have in a zone"""
    z = zone(tz)
    if not 1000 <= x[0] <= 9000:
        raise Unknown("zone")
    out = []
    for fold in (0, 1):
        d = datetime.datetime(*x[:6], fold=fold, tzinfo=z)
        back = d.astimezone(datetime.timezone.utc).astimezone(z)
        if back.replace(tzinfo=None, fold=0) == d.replace(tzinfo=None, fold=0):
            o = int(d.utcoffset().total_seconds())
            if o not in out:
                out.append(o)
    return out


def tz_name(v):
    return v[1]


def zoned(v):
    """offset of ("zdt", tz, ndt)"""
    tz, x = v[1], flat(v[2])
    o = offsets(tz_name(tz), x)
    if not o:
        raise No()
    return max(o) if tz[0] == "tzearly" else min(o) if tz[0] == "tzlate" else o[0]


def chrono_parse(what, fmt, s):
    """what chrono's parse_from_str reads, or None"""
    from ntime import items
    i = 0
    got = {}
    ws = " \t\n\r\x0b\x0c"
    for it in items(fmt):
        if it[0] == "lit":
            if it[1] in ws:
                while i < len(s) and s[i] in ws:
                    i += 1
                continue
            if not s.startswith(it[1], i):
                return None
            i += len(it[1])
            continue
        k = it[1]
        if k not in "YmdHMS":
            raise Unknown("format %" + k)
        while i < len(s) and s[i].isspace():
            i += 1
        w = 4 if k == "Y" else 2
        sign = 1
        if k == "Y" and i < len(s) and s[i] in "+-":
            sign = -1 if s[i] == "-" else 1
            i += 1
            w = 10**6
        j = i
        while j < len(s) and j - i < w and s[j] in "0123456789":
            j += 1
        if j == i or j - i > 18:
            return None
        x = sign * int(s[i:j])
        if k in got and got[k] != x:
            return None
        got[k] = x
        i = j
    if i != len(s):
        return None
    y, m, d = got.get("Y"), got.get("m"), got.get("d")
    if y is None or m is None or d is None or not 1 <= m <= 12 or not -262143 <= y <= 262142 or not valid_ymd(y, m, d):
        return None
    if what == "date":
        return (y, m, d, 0, 0, 0, 0)
    h, mi, sec = got.get("H"), got.get("M"), got.get("S", 0)
    if h is None or mi is None or h > 23 or mi > 59 or sec > 60:
        return None
    return (y, m, d, h, mi, 59, 10**9) if sec == 60 else (y, m, d, h, mi, sec, 0)


def frac(n):
    if n == 0:
        return ""
    return ".%03d" % (n // 10**6) if n % 10**6 == 0 else ".%06d" % (n // 1000) if n % 1000 == 0 else ".%09d" % n


def iso_parse(s):
    from ntime import iso_lit
    try:
        return iso_lit(s)
    except Abandon:
        raise Unknown("duration")


def trunc_div(a, b):
    if b == 0:
        raise No()
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


class Eval:
    def __init__(self, st, env):
        self.st = st
        self.env = env

    # ---- symbols
    def sym(self, id):
        if id in self.env:
            return self.env[id]
        if id not in self.st.syms and id.startswith("len:"):
            v = len(self.sym(id[4:]).encode())
            self.env[id] = v
            return v
        y = self.st.syms[id]
        if y.df is not None and y.df.op == "seglen":
            key = y.df.a[0]
            if key[0] == "ap":
                v = len(self.term(key[1]).encode())
            elif key[0] == "c":
                v = len(self.char(key[1]).encode())
            else:
                v = len(self.seg(Hm(key[1], key[2])).encode())
        elif y.bind is not None and y.df is None:
            b = y.bind
            if isinstance(b, Rope):
                v = self.rope(b)
            elif isinstance(b, int) and y.kind == "c":
                v = chr(b)
            elif isinstance(b, ChS):
                v = self.sym(b.id)
            else:
                v = self.lin(b)
        elif y.df is not None:
            v = self.term(y.df)
        else:
            raise Unknown(id)
        self.env[id] = v
        return v

    def char(self, id):
        v = self.sym(id)
        return chr(v) if isinstance(v, int) else v

    # ---- ropes
    def seg(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, Ap):
            return self.term(x.t)
        if isinstance(x, Cs):
            return self.char(x.id)
        s = self.sym(x.id)
        if isinstance(x, Hm):
            d = dict(x.m)
            return "".join(d.get(atom_of(ord(c)), c) for c in s)
        return s

    def rope(self, r):
        return "".join(self.seg(x) for x in r.s)

    def lin(self, x):
        if isinstance(x, Lin):
            v = x.c
            for s, k in x.t:
                v += k * self.sym(s)
            return v
        if isinstance(x, int):
            return x
        raise Unknown(repr(x))

    # ---- values, for terms over composite values
    def val(self, v):
        if isinstance(v, Rope):
            return self.rope(v)
        if isinstance(v, (Lin, int, str)) or v is None:
            return self.lin(v) if isinstance(v, Lin) else v
        if isinstance(v, ChS):
            return self.char(v.id)
        if isinstance(v, N):
            return (v.k,) + tuple(self.val(x) for x in v.f)
        if isinstance(v, T):
            return self.term(v)
        if isinstance(v, A):
            return (v.v,) + tuple(self.val(x) for x in v.f)
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, Seq):
            return tuple(self.val(x) for x in v.e)
        if isinstance(v, (Ref, Bx)):
            return self.val(v.v)
        raise Unknown(repr(v))

    def term(self, t):
        op, a = t.op, t.a
        if op == "dec":
            return str(self.lin(a[0]))
        if op == "pad":
            if isinstance(a[0], Rope):
                raise Unknown(op)
            return str(self.lin(a[0])).rjust(a[1], "0")
        if op == "padx":
            v, w, c = self.lin(a[0]), a[1], a[2]
            if c == "-":
                return str(v)
            if c in ("0", None):
                if w == 4 and not 0 <= v <= 9999:
                    return "%+05d" % v
                return str(v).rjust(w, "0")
            return str(v).rjust(w)
        if op == "tdisplay":
            v = self.val(a[0])
            if v[0] == "time":
                x, d = (0, 0, 0) + tuple(v[1:5]), ""
            elif v[0] in ("ndt", "utc"):
                x = flat(v)
                d = "%04d-%02d-%02d " % x[:3]
            else:
                raise Unknown(op)
            n = x[6]
            return d + "%02d:%02d:%02d" % x[3:6] + frac(n) + (" UTC" if v[0] == "utc" else "")
        if op == "durdisp":
            v = self.val(a[0])
            tot = v[1] * 10**9 + v[2]
            neg, tot = tot < 0, abs(tot)
            if tot == 0:
                return "P0D"
            return ("-" if neg else "") + "PT%d" % (tot // 10**9) + ((".%09d" % (tot % 10**9)).rstrip("0") if tot % 10**9 else "") + "S"
        if op == "field":
            x = self.time(a[0])
            return x["YmdHMS".index(a[1])] if a[1] != "ns" else x[6]
        if op == "isosecs":
            r = iso_parse(self.rope(a[0]))
            if r is None or r[1]:
                raise No()
            return r[0]
        if op == "timestamp":
            return to_secs(flat(self.val(a[0])))
        if op == "dtdiff":
            return to_secs(flat(self.val(a[0]))) - to_secs(flat(self.val(a[1])))
        if op == "ordinal":
            x = flat(self.val(a[0]))
            return (to_secs(x) - to_secs((x[0], 1, 1, 0, 0, 0, 0))) // 86400 + 1
        if op == "num_days_from_ce":
            return to_secs(flat(self.val(a[0]))) // 86400 + 719163
        if op == "mul":
            return self.lin(a[0]) * self.lin(a[1])
        if op == "div":
            return trunc_div(self.lin(a[0]), self.lin(a[1]))
        if op == "rem":
            x, y = self.lin(a[0]), self.lin(a[1])
            return x - y * trunc_div(x, y)
        if op == "abbr":
            v = self.val(a[0])
            o = zoned(("zdt",) + v[1:])
            x = flat(v[2])
            return datetime.datetime(*x[:6], tzinfo=datetime.timezone.utc).__sub__(datetime.timedelta(seconds=o)).astimezone(zone(tz_name(v[1]))).tzname()
        if op == "parsed":
            s = self.rope(a[0])
            if not intlike(s):
                raise No()
            return int(s)
        if op == "slice":
            b = self.term(a[0]).encode()
            try:
                return b[a[1]:a[2]].decode()
            except UnicodeDecodeError:
                raise No()
        if op == "nth":
            s = self.rope(a[0])
            n = self.lin(a[1])
            if n >= len(s):
                raise No()
            return s[n]
        if op == "after":
            return self.rope(a[0])[self.lin(a[1]) + 1:]
        if op == "chars":
            return len(self.rope(a[0]))
        if op in ("upper", "lower"):
            s = self.rope(a[0])
            return s.upper() if op == "upper" else s.lower()
        if op == "map":
            s = self.rope(a[0]) if isinstance(a[0], Rope) else self.term(a[0])
            d = dict(a[1])
            return "".join(d.get(atom_of(ord(c)), c) for c in s)
        if op == "uuid":
            return "%08x-0000-4000-8000-%012x" % (a[0], a[0])
        if op == "size":
            return 64       # of a type: only capacities depend on it
        if op == "f2i":
            import nmore
            return nmore.float_to_int(self.num(a[0]), a[1], a[2])
        if op in ("fparsed", "fop", "ffun", "i2f"):
            return self.num(t)
        if op == "wrap":
            r, b, sg = a
            v = self.lin(r) % (1 << b)
            return v - (1 << b) if sg and v >> (b - 1) else v
        raise Unknown(op)

    def num(self, t):
        """the float a term stands for"""
        import nmore
        if isinstance(t, (float, int)):
            return t
        if isinstance(t, Lin):
            return self.lin(t)
        if not isinstance(t, T):
            raise Unknown(repr(t))
        op, a = t.op, t.a
        try:
            if op == "i2f":
                return nmore.fround(float(self.lin(a[0])), a[1])
            if op == "fparsed":
                x = nmore.parse_float(self.rope(a[0]))
                if x is None:
                    raise No()
                return nmore.fround(x, a[1])
            if op == "fop":
                return nmore.float_op(a[0], self.num(a[1]), self.num(a[2]), a[3])
            if op == "ffun":
                return nmore.feval(a[0], [self.num(x) for x in a[2:]], a[1])
        except (Abandon, OverflowError, ValueError, ZeroDivisionError):
            raise Unknown(op)
        raise Unknown(op)

    def time(self, t):
        """the local time a term stands for"""
        key = ("time", t)
        if key in self.env:
            if self.env[key] is None:
                raise No()
            return self.env[key]
        self.env[key] = None
        op, a = t.op, t.a
        if op == "parsed":
            r = chrono_parse(a[0], a[1], self.rope(a[2]))
            if r is None:
                raise No()
        elif op == "toutc":
            v = ("zdt", self.val(a[0]), self.val(a[1]))
            x = flat(v[2])
            r = from_secs(to_secs(x) - zoned(v), x[6])
        elif op == "tolocal":
            tz, x = self.val(a[0]), flat(self.val(a[1]))
            if not 1000 <= x[0] <= 9000:
                raise Unknown("zone")
            d = datetime.datetime(*x[:6], tzinfo=datetime.timezone.utc).astimezone(zone(tz_name(tz)))
            r = (d.year, d.month, d.day, d.hour, d.minute, d.second, x[6])
        elif op == "dtadd":
            x = flat(self.val(a[0]))
            r = from_secs(to_secs(x) + self.lin(a[1]), x[6])
        elif op == "dateadd":
            r = from_secs(to_secs(flat(self.val(a[0]))) + 86400 * self.lin(a[1]))
        else:
            raise Unknown(op)
        self.env[key] = r
        return r

    # ---- relations
    def cond(self, b):
        if b is True or b is False:
            return b
        op, a = b.op, b.a
        if op == "not":
            return not self.cond(a[0])
        if op == "and":
            return self.cond(a[0]) and self.cond(a[1])
        if op == "or":
            return self.cond(a[0]) or self.cond(a[1])
        if op == "le":
            return self.lin(a[0]) <= 0
        if op == "eq":
            return self.lin(a[0]) == 0
        if op == "req":
            return self.rope(a[0]) == self.rope(a[1])
        if op == "reqci":
            return ci(self.rope(a[0])) == ci(self.rope(a[1]))
        if op == "rlt":
            return self.rope(a[0]).encode() < self.rope(a[1]).encode()
        if op == "contains":
            return (self.rope(a[1]) if isinstance(a[1], Rope) else a[1]) in self.rope(a[0])
        if op == "startsci":
            return ci(self.rope(a[0])).startswith(ci(self.rope(a[1])))
        if op == "starts":
            return self.rope(a[0]).startswith(self.rope(a[1]))
        if op == "chin":
            c = a[0] if isinstance(a[0], int) else ord(self.char(a[0].id))
            return bool((a[1] >> atom_of(c)) & 1)
        if op == "cheq":
            x = [y if isinstance(y, int) else ord(self.char(y.id)) for y in a[:2]]
            return x[0] == x[1]
        if op == "isint":
            s = self.rope(a[0])
            return intlike(s) and a[1] <= int(s) <= a[2]
        if op == "app":
            t = a[0]
            if t.op == "nth":
                s = self.rope(t.a[0])
                n = self.lin(t.a[1])
                if a[1] is None:
                    return n < len(s)
                return n < len(s) and s[n] == self.char(a[1])
            if t.op == "knowntz":
                return self.rope(t.a[0]) in ZONES
            if t.op == "isfloat":
                import nmore
                return nmore.parse_float(self.rope(t.a[0])) is not None
            if t.op == "fop" and t.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or t.op == "ffun" and t.a[0].startswith("is_"):
                return bool(self.num(t))
            if t.op == "isint":
                s = self.rope(t.a[0])
                return intlike(s) and t.a[1] <= int(s) <= t.a[2]
            if t.op == "parsed":
                return chrono_parse(t.a[0], t.a[1], self.rope(t.a[2])) is not None
            if t.op == "isodur":
                r = iso_parse(self.rope(t.a[0]))
                if r is not None and r[1]:
                    raise No()          # fractions are not part of the model
                return r is not None
            if t.op == "validdate":
                return valid_ymd(*[self.lin(x) for x in t.a])
            if t.op in ("unambiguous", "ambiguous"):
                n = len(offsets(tz_name(self.val(t.a[0])), flat(self.val(t.a[1]))))
                return n == (1 if t.op == "unambiguous" else 2)
            if t.op == "prefix":
                return self.rope(t.a[0]).startswith(self.rope(t.a[1]))
            if t.op == "eqci":
                return ci(self.rope(t.a[0])) == ci(self.rope(t.a[1]))
            if t.op in ("teq", "tlt"):
                x, y = self.val(t.a[0]), self.val(t.a[1])
                return x == y if t.op == "teq" else x < y
            if t.op in FREE:
                return None
        raise Unknown(op)


def ci(s):
    return "".join(c.lower() if ord(c) < 128 else c for c in s)


def intlike(s):
    t = s[1:] if s[:1] in ("+", "-") else s
    return bool(t) and all(c in "0123456789" for c in t)


def pick_text(rng, y, known):
    if y.hi <= 0:
        return ""
    al = [ATOM_REPR[a] for a in atoms(y.cs)]
    nice = [c for c in al if c.isalnum() and ord(c) < 128]
    lo, hi = y.lo, min(y.hi, y.lo + 300)
    mode = rng.random()
    if known and mode < 0.1:
        s = rng.choice(known)
        if all((y.cs >> atom_of(ord(c))) & 1 for c in s) and lo <= len(s.encode()) <= y.hi:
            return s
    n = rng.choice((lo, min(lo + 1, hi), min(lo + 2, hi), rng.randint(lo, min(hi, lo + 12)), rng.randint(lo, hi), hi if hi < 300 else lo + 1))
    out, k = [], 0
    plain = rng.random() < 0.5
    while k < n:
        c = rng.choice(nice) if nice and (plain or rng.random() < 0.5) else rng.choice(al)
        l = len(c.encode())
        if k + l > n:
            small = [c for c in al if len(c.encode()) <= n - k]
            if not small:
                break
            c = rng.choice(small)
            l = len(c.encode())
        out.append(c)
        k += l
    return "".join(out)


def check(st, env):
    ev = Eval(st, env)
    for id, y in st.syms.items():
        if y.kind == "o":
            continue
        try:
            v = ev.sym(id)
        except Unknown:
            if y.df is not None and y.bind is None and y.lo <= y.first[0] and y.hi >= y.first[1]:
                continue      # its value does not matter unless a relation mentions it
            raise
        if y.kind == "s":
            n = len(v.encode())
            if not y.lo <= n <= y.hi or v in y.avoid or ci(v) in y.avoid_ci:
                return False
            if any(not (y.cs >> atom_of(ord(c))) & 1 for c in v):
                return False
        elif y.kind == "c":
            c = chr(v) if isinstance(v, int) else v
            if not (y.cs >> atom_of(ord(c))) & 1 or c in y.avoid:
                return False
        elif y.kind == "i":
            if not y.lo <= v <= y.hi:
                return False
        if y.df is not None and y.bind is not None:
            b = y.bind
            w = ev.rope(b) if isinstance(b, Rope) else chr(b) if isinstance(b, int) and y.kind == "c" else ev.char(b.id) if isinstance(b, ChS) else ev.lin(b)
            if v != w:
                return False
    for b, want in st.facts:
        got = ev.cond(b)
        if got is not None and got != want:
            return False
    return True


SPECIAL = ((1970, 1, 1, 0, 0, 0, 0), (2024, 2, 29, 12, 30, 15, 0), (9999, 12, 31, 23, 59, 59, 0), (2000, 1, 1, 0, 0, 0, 0), (2021, 7, 4, 9, 5, 7, 0),
           (2021, 3, 28, 2, 30, 0, 0), (2021, 10, 31, 2, 30, 0, 0), (1969, 12, 31, 23, 59, 59, 0), (2038, 1, 19, 3, 14, 8, 0), (1, 1, 1, 0, 0, 0, 0), (1900, 2, 28, 0, 0, 1, 0))


def some_time(rng):
    if rng.random() < 0.4:
        return rng.choice(SPECIAL)
    y = rng.choice((rng.randint(0, 9999), rng.randint(1950, 2050)))
    m = rng.randint(1, 12)
    d = rng.choice((1, 28, rng.randint(1, 28), rng.randint(1, 31)))
    if not valid_ymd(y, m, d):
        d = 28
    return (y, m, d, rng.choice((0, 23, rng.randint(0, 23))), rng.choice((0, 59, rng.randint(0, 59))), rng.choice((0, 59, rng.randint(0, 59))), 0)


def written(rng, fmt):
    """a date in a format"""
    from ntime import items
    x = some_time(rng)
    out = ""
    for it in items(fmt):
        if it[0] == "lit":
            out += it[1]
        elif it[1] in "YmdHMS":
            out += str(x["YmdHMS".index(it[1])]).rjust(4 if it[1] == "Y" else 2, "0")
        else:
            return None
    return out


def duration(rng):
    return rng.choice(("PT5S", "P4294967295Y", "P4294967295M", "P1D", "P1W", "PT1H30M", "P2DT3H", "PT0S", "P0D", "PT%dS" % rng.randint(0, 10**6), "P%dD" % rng.randint(0, 1000)))


def edge(rng, lo, hi):
    """around a power of two"""
    return min(max(rng.choice((1, 1, 1, -1)) * 2 ** rng.choice((7, 8, 15, 16, 24, 31, 32, 63)) + rng.choice((-1, 0, 1, 5, rng.randint(0, 300))), lo), hi)


def integer(rng, lo, hi):
    return str(rng.choice((edge(rng, lo, hi), lo, hi, rng.randint(lo, hi), rng.randint(max(lo, 0), max(min(hi, 300), max(lo, 0))))))


def hints(st):
    """texts some relation of the state wants: (rope, generator)"""
    out = []
    for b, want in st.facts:
        if not want:
            continue
        if b.op == "isint":
            out.append((b.a[0], lambda rng, a=b.a: integer(rng, a[1], a[2])))
        if b.op == "app":
            t = b.a[0]
            if t.op == "knowntz":
                out.append((t.a[0], lambda rng: rng.choice(ZONES)))
            elif t.op == "parsed":
                out.append((t.a[2], lambda rng, f=t.a[1]: written(rng, f)))
            elif t.op == "isfloat":
                out.append((t.a[0], lambda rng: rng.choice((integer(rng, -100, 300), "%d.%d" % (rng.randint(-5, 120), rng.randint(0, 99)), "1e2", ".5", "5."))))
            elif t.op == "isodur":
                out.append((t.a[0], duration))
            elif t.op == "isint":
                out.append((t.a[0], lambda rng, a=t.a: integer(rng, a[1], a[2])))
    res = []
    for r, g in out:
        pat, ids = "", []
        for x in st.norm(r).s:
            if isinstance(x, str):
                pat += re.escape(x)
            elif isinstance(x, (Sy, Cs)) and is_leaf(st.syms[x.id]) and x.id not in ids:
                ids.append(x.id)
                pat += "(.)" if isinstance(x, Cs) else "(.*?)" if len(ids) % 2 else "(.*)"
            else:
                pat += ".*?"
        if ids:
            res.append((re.compile(pat, re.S), ids, g))
    return res


def stems(leaves):
    """the symbolic dates among the numbers"""
    d = {}
    for id, y in leaves:
        if y.kind == "i" and id.startswith("int:") and "." in id:
            a, k = id.rsplit(".", 1)
            if k in ("Y", "m", "d", "H", "M", "S", "ns"):
                d.setdefault(a, {})[k] = id
    return [x for x in d.values() if "Y" in x]


def find(st, tries=3000, seed=1, secs=8):
    """a member of the state as {name: value}, None if none was found, or the unknown term"""
    import time
    rng = random.Random(seed)
    leaves = [(id, y) for id, y in sorted(st.syms.items()) if is_leaf(y) and y.kind in "sci"]
    want = hints(st)
    dates = stems(leaves)
    unknown = None
    t0 = time.time()
    for i in range(tries):
        if time.time() - t0 > secs:
            break
        env = {}
        known = []
        for id, y in leaves:
            if y.kind == "s":
                v = pick_text(rng, y, known)
                known.append(v)
            elif y.kind == "c":
                al = [ATOM_REPR[a] for a in atoms(y.cs) if ATOM_REPR[a] not in y.avoid]
                if not al:
                    return None
                v = rng.choice(al)
            else:
                lo, hi = max(y.lo, -2**62), min(y.hi, 2**62)
                v = rng.choice((edge(rng, lo, hi), lo, hi, min(lo + 1, hi), rng.randint(lo, hi), rng.randint(max(lo, min(0, hi)), min(hi, max(lo, 100)))
                                if max(lo, min(0, hi)) <= min(hi, max(lo, 100)) else lo))
            env[id] = v
        for d in dates:
            x = some_time(rng)
            for j, k in enumerate(("Y", "m", "d", "H", "M", "S", "ns")):
                if k in d:
                    y = st.syms[d[k]]
                    env[d[k]] = min(max(x[j], y.lo), y.hi) if k != "ns" or rng.random() < 0.5 else rng.randint(y.lo, y.hi)
        for pat, ids, g in want:
            v = g(rng)
            m = pat.fullmatch(v) if v is not None else None
            if m:
                for id, x in zip(ids, m.groups()):
                    env[id] = x
        if any({"Y", "m", "d"} <= set(d) and not valid_ymd(env[d["Y"]], env[d["m"]], env[d["d"]]) for d in dates):
            continue
        try:
            if check(st, env):
                names = {}
                ev = Eval(st, env)
                for id, y in st.syms.items():
                    if "#" not in id and not id.startswith("len:") and not id.startswith("i:") and not (id.startswith("int:") and y.df is not None):
                        try:
                            names[id] = ev.sym(id)
                        except (Unknown, No):
                            pass
                return names
        except No:
            continue
        except Unknown as e:
            unknown = str(e)
            if i > 200:
                return unknown
    return unknown
