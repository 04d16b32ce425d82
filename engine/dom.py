"""Abstract values: linear integer forms, character classes, ropes and opaque terms.

A text is a rope: a sequence of literals, text symbols (any string over a character
class, with a byte length range), characterwise images of such symbols, single
symbolic characters and opaque but deterministic functions of other values.
"""
import datetime as _dt

# ---------------------------------------------------------------- character classes
# ASCII characters are atoms of their own, other characters are grouped by the
# properties programs can observe: encoded length, white space, alphanumeric, case.
ATOM_REPR = [chr(i) for i in range(128)] + [
    "\u00e9",   # 128 two bytes, lower case letter
    "\u00c9",   # 129 two bytes, upper case letter
    "\u00a0",   # 130 two bytes, white space
    "\u00d7",   # 131 two bytes, other
    "\u6f22",   # 132 three bytes, letter without case
    "\u3000",   # 133 three bytes, white space
    "\u20ac",   # 134 three bytes, other
    "\U0001f600",  # 135 four bytes, other
    "\U00010400",  # 136 four bytes, upper case letter
    "\x85",        # 137 next line (two bytes, white space, control)
    "\u2028",      # 138 line separator (three bytes, white space)
    "\ufeff",      # 139 byte order mark
]
SINGLE = {0x85: 137, 0x2028: 138, 0xfeff: 139}
NATOM = len(ATOM_REPR)
ALL = (1 << NATOM) - 1
ATOM_LEN = [len(c.encode()) for c in ATOM_REPR]


def atom_of(cp):
    if cp < 128:
        return cp
    if cp in SINGLE:
        return SINGLE[cp]
    c = chr(cp)
    n = len(c.encode())
    if n == 2:
        if c.isspace():
            return 130
        if c.isalnum():
            return 129 if c.isupper() else 128
        return 131
    if n == 3:
        if c.isspace():
            return 133
        return 132 if c.isalnum() else 134
    return 136 if c.isalnum() else 135


def is_single(atom):
    """does the atom stand for one character only"""
    return atom < 128 or atom >= 137


def bits(chars):
    b = 0
    for c in chars:
        b |= 1 << atom_of(ord(c))
    return b


def atoms(b):
    i = 0
    while b:
        if b & 1:
            yield i
        b >>= 1
        i += 1


DIGITS = bits("0123456789")
UPPER = bits("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER = bits("abcdefghijklmnopqrstuvwxyz")
ALNUM = DIGITS | UPPER | LOWER
NONASCII = ALL & ~((1 << 128) - 1)
CLASSES = {
    "any": ALL,
    "nocr": ALL & ~bits("\r"),
    "line": ALL & ~bits("\r\n"),
    "plain": ALL & ~bits("\r\n\\,;"),
    "word": ALNUM,
    "upper": UPPER,
    "name": ALNUM | bits("-"),
    "uname": UPPER | DIGITS | bits("-"),
    "pval": ALL & ~bits("\r\n\""),
    "pplain": ALL & ~bits("\r\n\":;,"),
    "tzname": ALNUM | bits("/_-+"),
    "ascii": ALL & ~NONASCII & ~bits("\r\n"),
    "nospace": ALL & ~bits("\r\n \t"),
    "nodigit": ALL & ~DIGITS,
    "nolf": ALL & ~bits("\n"),
    "nows": ALL & ~bits("\r\n\t ") & ~sum(1 << a for a in (11, 12, 130, 133, 137, 138)),
    "wide": NONASCII,
    "w1": ((1 << 128) - 1) & ~bits("\r\n"),
    "w2": sum(1 << a for a in atoms(NONASCII) if ATOM_LEN[a] == 2),
    "w3": sum(1 << a for a in atoms(NONASCII) if ATOM_LEN[a] == 3),
    "w4": sum(1 << a for a in atoms(NONASCII) if ATOM_LEN[a] == 4),
}

BIG = 1 << 31


# ---------------------------------------------------------------- linear forms
class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t            # tuple of (symbol, coefficient), sorted
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        return "%d%s" % (self.c, "".join("%+d*%s" % (k, s) for s, k in self.t))


def lin_parts(x):
    if isinstance(x, Lin):
        return x.c, dict(x.t)
    return x, {}


def mk_lin(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    if not t:
        return c
    return Lin(c, t)


def lin_add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for s, k in db.items():
        d[s] = d.get(s, 0) + kb * k
    return mk_lin(ca + kb * cb, d)


def lin_scale(a, k):
    if isinstance(a, int):
        return a * k
    return mk_lin(a.c * k, {s: v * k for s, v in a.t})


# ---------------------------------------------------------------- opaque terms
class T:
    """An uninterpreted, deterministic function application (hash consed by value)."""
    __slots__ = ("op", "a", "h")

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self.h = hash((op, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, T) and self.h == o.h and self.op == o.op and self.a == o.a)

    def __repr__(self):
        return "%s(%s)" % (self.op, ",".join(map(repr, self.a)))


# ---------------------------------------------------------------- rope segments
class Sy:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(("Sy", self.id))

    def __eq__(self, o):
        return isinstance(o, Sy) and o.id == self.id

    def __repr__(self):
        return "<%s>" % self.id


class Hm:
    """characterwise image of a text symbol; m: tuple of (atom, literal), identity elsewhere"""
    __slots__ = ("id", "m", "h")

    def __init__(self, id, m):
        self.id = id
        self.m = m
        self.h = hash((id, m))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Hm) and o.id == self.id and o.m == self.m

    def __repr__(self):
        return "<%s|%s>" % (self.id, ",".join("%r>%r" % (ATOM_REPR[a], l) for a, l in self.m))


class Cs:
    """a single symbolic character"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(("Cs", self.id))

    def __eq__(self, o):
        return isinstance(o, Cs) and o.id == self.id

    def __repr__(self):
        return "'%s'" % self.id


class Ap:
    """text computed by an opaque function, with the characters and lengths it can have"""
    __slots__ = ("t", "cs", "lo", "hi")

    def __init__(self, t, cs, lo, hi):
        self.t, self.cs, self.lo, self.hi = t, cs, lo, hi

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        return isinstance(o, Ap) and o.t == self.t

    def __repr__(self):
        return "{%r}" % (self.t,)


class Rope:
    __slots__ = ("s", "h")

    def __init__(self, s):
        self.s = s
        self.h = hash(s)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Rope) and self.s == o.s

    def __repr__(self):
        return "R[%s]" % " ".join(repr(x) for x in self.s)

    def lit(self):
        """the text, if it is a literal"""
        if not self.s:
            return ""
        if len(self.s) == 1 and isinstance(self.s[0], str):
            return self.s[0]
        return None


def mk_rope(segs):
    out = []
    for x in segs:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
                continue
        elif isinstance(x, Hm) and not x.m:
            x = Sy(x.id)
        out.append(x)
    return Rope(tuple(out))


def R(s):
    return Rope((s,) if s else ())


EMPTY = Rope(())


def cat(*rs):
    segs = []
    for r in rs:
        segs.extend(r.s)
    return mk_rope(segs)


# ---------------------------------------------------------------- other values
class A:
    """struct, enum, tuple or closure value"""
    __slots__ = ("ty", "v", "f")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, f

    def __repr__(self):
        return "A(%s,%s,%r)" % (self.ty, self.v, self.f)

    def __eq__(self, o):
        return isinstance(o, A) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))


class Seq:
    """vector, array or slice contents"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Seq%r" % (list(self.e),)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.e == o.e

    def __hash__(self):
        return hash(self.e)


class Bytes:
    """a byte view of a text"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return "Bytes(%r)" % (self.r,)

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.r == o.r

    def __hash__(self):
        return hash(("by", self.r))


class MapV:
    """map contents; kind 'b' (ordered by key) or 'h' (hashed)"""
    __slots__ = ("k", "e")

    def __init__(self, k, e):
        self.k, self.e = k, e

    def __repr__(self):
        return "Map%s%r" % (self.k, list(self.e))

    def __eq__(self, o):
        return isinstance(o, MapV) and self.k == o.k and self.e == o.e

    def __hash__(self):
        return hash((self.k, self.e))


class Ref:
    """shared reference: the value it refers to (which cannot change while it lives)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&%r" % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Ref) and self.v == o.v

    def __hash__(self):
        return hash(("ref", self.v))


class Mut:
    """unique reference: a cell and a path into it"""
    __slots__ = ("c", "p")

    def __init__(self, c, p):
        self.c, self.p = c, p

    def __repr__(self):
        return "&mut(%r,%r)" % (self.c, self.p)

    def __eq__(self, o):
        return isinstance(o, Mut) and self.c == o.c and self.p == o.p

    def __hash__(self):
        return hash((self.c, self.p))


class Bx:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Box(%r)" % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Bx) and self.v == o.v

    def __hash__(self):
        return hash(("bx", self.v))


class Fn:
    """function item"""
    __slots__ = ("i", "ty")

    def __init__(self, i, ty=None):
        self.i, self.ty = i, ty

    def __repr__(self):
        return "Fn(%s)" % self.i

    def __eq__(self, o):
        return isinstance(o, Fn) and self.i == o.i

    def __hash__(self):
        return hash(("fn", self.i))


class N:
    """native object (iterator, formatter, ...): kind and immutable fields"""
    __slots__ = ("k", "f")

    def __init__(self, k, *f):
        self.k, self.f = k, f

    def __repr__(self):
        return "N:%s%r" % (self.k, self.f)

    def __eq__(self, o):
        return isinstance(o, N) and self.k == o.k and self.f == o.f

    def __hash__(self):
        return hash((self.k, self.f))


class ChS:
    """symbolic character value (same symbol space as Cs segments)"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "ch:%s" % self.id

    def __eq__(self, o):
        return isinstance(o, ChS) and self.id == o.id

    def __hash__(self):
        return hash(("chs", self.id))


class Uninit:
    def __repr__(self):
        return "uninit"


UNINIT = Uninit()
UNIT = A(None, 0, ())


# ---------------------------------------------------------------- truth values
class B:
    """a condition that is not decided yet: op in le (lin<=0), eq (lin==0), req (ropes
    equal), chin (char in class), app (opaque), not"""
    __slots__ = ("op", "a", "h")

    def __init__(self, op, *a):
        self.op, self.a = op, a
        self.h = hash((op, a))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, B) and self.op == o.op and self.a == o.a

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.a)))


def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if x.op == "not":
        return x.a[0]
    return B("not", x)


class Panic:
    __slots__ = ("msg", "at", "stack")

    def __init__(self, msg, at, stack=()):
        self.msg, self.at, self.stack = msg, at, stack

    def __repr__(self):
        return "panic %s at %s" % (self.msg, self.at)


class Abandon(Exception):
    """the analysis of one path stops here: nothing is concluded about it"""


class Budget(Exception):
    pass


# ---------------------------------------------------------------- state
class Sym:
    """what is known about a symbol"""
    __slots__ = ("kind", "cs", "lo", "hi", "avoid", "avoid_ci", "df", "bind", "root", "depth", "first")

    def __init__(self, kind, cs=0, lo=0, hi=BIG, avoid=frozenset(), avoid_ci=frozenset(), df=None, bind=None, root=None, depth=0):
        self.kind = kind      # 's' text, 'c' char, 'i' int, 'o' other
        self.cs, self.lo, self.hi = cs, lo, hi
        self.avoid, self.avoid_ci = avoid, avoid_ci
        self.df = df          # defining term, for derived symbols
        self.bind = bind      # what the symbol was refined to
        self.root = root      # the original symbol it is a part of
        self.depth = depth
        self.first = (lo, hi)   # what its definition implies; anything narrower was assumed

    def but(self, **k):
        n = Sym(self.kind, self.cs, self.lo, self.hi, self.avoid, self.avoid_ci, self.df, self.bind, self.root, self.depth)
        n.first = self.first
        for a, v in k.items():
            setattr(n, a, v)
        return n


class State:
    __slots__ = ("cells", "syms", "facts", "flags", "stack", "log")

    def __init__(self):
        self.cells = {}
        self.syms = {}
        self.facts = ()
        self.flags = {}
        self.stack = ()
        self.log = ()

    def clone(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.syms = dict(self.syms)
        s.facts = self.facts
        s.flags = dict(self.flags)
        s.stack = self.stack
        s.log = self.log
        return s

    _n = 0

    def fresh(self, name, **k):
        State._n += 1
        id = "%s#%d" % (name.split("#")[0], State._n)
        self.syms[id] = Sym(**k)
        return id

    # ---- ropes
    def norm(self, r):
        """the rope with refined symbols replaced"""
        syms = self.syms
        for x in r.s:
            if not isinstance(x, str):
                if isinstance(x, Ap):
                    if x.t.op == "dec":
                        v = self.nint(x.t.a[0])
                        if isinstance(v, int) or v is not x.t.a[0]:
                            break
                    continue
                y = syms[x.id]
                if y.bind is not None:
                    break
                if isinstance(x, Hm) and any(not (y.cs >> a) & 1 for a, _ in x.m):
                    break
        else:
            return r
        out = []
        for x in r.s:
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, Ap):
                if x.t.op == "dec":
                    v = self.nint(x.t.a[0])
                    if isinstance(v, int):
                        out.append(str(v))
                        continue
                    if v is not x.t.a[0]:
                        out.append(Ap(T("dec", v), x.cs, x.lo, x.hi))
                        continue
                out.append(x)
            else:
                b = syms[x.id].bind
                if b is None:
                    if isinstance(x, Hm):
                        cs = syms[x.id].cs
                        x = Hm(x.id, tuple((a, l) for a, l in x.m if (cs >> a) & 1))
                    out.append(x)
                elif isinstance(x, Cs):
                    out.extend(self.norm(R(chr(b)) if isinstance(b, int) else Rope((Cs(b.id),))).s)
                elif isinstance(x, Sy):
                    out.extend(self.norm(b).s)
                else:
                    out.extend(self.hom(self.norm(b), x.m).s)
        return mk_rope(out)

    def hom(self, r, m):
        """characterwise substitution m (tuple of (atom, literal)) applied to a rope"""
        d = dict(m)
        out = []
        for x in r.s:
            if isinstance(x, str):
                out.append("".join(d.get(atom_of(ord(c)), c) for c in x))
            elif isinstance(x, Cs):
                cs = self.syms[x.id].cs
                hit = [a for a in atoms(cs) if a in d]
                if not hit:
                    out.append(x)
                elif len(hit) == bin(cs).count("1") and len({d[a] for a in hit}) == 1:
                    out.append(d[hit[0]])
                else:
                    raise Abandon("substitution in an undetermined character")
            elif isinstance(x, Ap):
                if any((x.cs >> a) & 1 for a in d):
                    raise Abandon("substitution in an opaque text")
                out.append(x)
            else:
                inner = dict(x.m) if isinstance(x, Hm) else {}
                comp = {}
                for a in atoms(self.syms[x.id].cs):
                    base = inner.get(a)
                    if base is None:
                        if a in d:
                            comp[a] = d[a]
                    else:
                        comp[a] = "".join(d.get(atom_of(ord(c)), c) for c in base)
                comp = {a: l for a, l in comp.items() if not (a < 128 and l == chr(a))}
                out.append(Hm(x.id, tuple(sorted(comp.items()))) if comp else Sy(x.id))
        return mk_rope(out)

    def seg_cs(self, x):
        """characters a segment can contain"""
        if isinstance(x, str):
            return bits(x)
        if isinstance(x, Ap):
            return x.cs
        cs = self.syms[x.id].cs
        if isinstance(x, Hm):
            b = 0
            d = dict(x.m)
            for a in atoms(cs):
                b |= bits(d[a]) if a in d else 1 << a
            return b
        return cs

    def seg_min(self, x):
        """least number of bytes"""
        if isinstance(x, str):
            return len(x.encode())
        if isinstance(x, Ap):
            return x.lo
        s = self.syms[x.id]
        if isinstance(x, Cs):
            return min(ATOM_LEN[a] for a in atoms(s.cs))
        if isinstance(x, Hm):
            if s.lo and all(l for _, l in x.m):
                return 1
            return 0
        return s.lo

    def seg_len(self, x):
        if isinstance(x, str):
            return len(x.encode())
        if isinstance(x, Ap):
            if x.lo == x.hi:
                return x.lo
            return self.len_sym(("ap", x.t), x.lo, x.hi)
        s = self.syms[x.id]
        if isinstance(x, Cs):
            ls = {ATOM_LEN[a] for a in atoms(s.cs)}
            if len(ls) == 1:
                return ls.pop()
            return self.len_sym(("c", x.id), min(ls), max(ls))
        if isinstance(x, Hm):
            k = max([1] + [len(l.encode()) for _, l in x.m])
            lo = self.seg_min(x)
            if lo >= 1:
                lo = max(lo, -(-s.lo * min([1] + [len(l.encode()) / ATOM_LEN[a] for a, l in x.m if ATOM_LEN[a] <= 4]) // 1).__int__())
            n = self.len_sym(("h", x.id, x.m), lo, BIG if s.hi >= BIG else s.hi * k)
            if s.lo != s.hi and isinstance(n, Lin):
                src = mk_lin(0, {"len:" + x.id: 1})
                f = B("le", lin_add(n, src, -k))
                if not any(g == f for g, _ in self.facts):
                    self.fact(f, True)
                    if all(len(l.encode()) >= ATOM_LEN[a] for a, l in x.m):
                        self.fact(B("le", lin_add(src, n, -1)), True)
            return n
        if s.lo == s.hi:
            return s.lo
        return mk_lin(0, {"len:" + x.id: 1})

    def len_sym(self, key, lo, hi):
        id = "len:%s" % (key,)
        if id not in self.syms:
            self.syms[id] = Sym("i", lo=lo, hi=hi, df=T("seglen", key))
        return self.nint(mk_lin(0, {id: 1}))

    def rlen(self, r):
        n = 0
        for x in self.norm(r).s:
            n = lin_add(n, self.seg_len(x))
        return n

    # ---- integers
    def nint(self, x):
        if isinstance(x, Lin):
            for s, _ in x.t:
                if s.startswith("len:"):
                    if s not in self.syms:
                        b = self.syms.get(s[4:])
                        if b is not None and (b.bind is not None or b.lo == b.hi):
                            break
                    elif self.stale(self.syms[s]):
                        break
                elif self.syms[s].bind is not None:
                    break
                if s in self.syms and self.syms[s].bind is not None:
                    break
            else:
                return x
            r = x.c
            for s, k in x.t:
                v = None
                if s in self.syms:
                    v = self.syms[s].bind
                    if v is None and self.stale(self.syms[s]):
                        v = self.seg_relen(self.syms[s].df.a[0])
                elif s.startswith("len:"):
                    b = self.syms[s[4:]]
                    if b.bind is not None:
                        v = self.rlen(b.bind)
                    elif b.lo == b.hi:
                        v = b.lo
                r = lin_add(r, mk_lin(0, {s: 1}) if v is None else self.nint(v), k)
            return r
        return x

    def stale(self, y):
        """the length of a segment that has been refined since"""
        if y.df is None or y.df.op != "seglen":
            return False
        key = y.df.a[0]
        if key[0] == "ap":
            return False
        z = self.syms[key[1]]
        if z.bind is not None:
            return True
        if key[0] == "c":
            return len({ATOM_LEN[a] for a in atoms(z.cs)}) == 1
        return z.hi == 0

    def seg_relen(self, key):
        if key[0] == "c":
            return self.rlen(Rope((Cs(key[1]),)))
        z = self.syms[key[1]]
        if z.bind is None and z.hi == 0:
            return 0
        return self.rlen(Rope((Hm(key[1], key[2]),)))

    def srange(self, s):
        if s in self.syms:
            y = self.syms[s]
            return y.lo, y.hi
        if s.startswith("len:"):
            y = self.syms[s[4:]]
            return y.lo, y.hi
        return -BIG, BIG

    def irange(self, x):
        if isinstance(x, int):
            return x, x
        lo = hi = x.c
        for s, k in x.t:
            a, b = self.srange(s)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def set_range(self, s, lo, hi):
        """narrow a symbol; False when it becomes empty"""
        key = s if s in self.syms else s[4:]
        y = self.syms[key]
        lo, hi = max(lo, y.lo), min(hi, y.hi)
        if lo > hi:
            return False
        n = y.but(lo=lo, hi=hi)
        if key == s and lo == hi and y.kind == "i":
            n.bind = lo
        if key != s and hi == 0:
            n.bind = EMPTY
        self.syms[key] = n
        return True

    def le_facts(self, const=False):
        """linear forms known to be at most 0"""
        out = []
        for f, v in self.facts:
            if v and f.op == "le":
                x = self.nint(f.a[0])
                if const or isinstance(x, Lin):
                    out.append(x)
        return out

    def fact(self, b, val):
        self.facts = self.facts + ((b, val),)
