"""Path partitioned abstract interpretation of the dumped MIR."""
import json
import sys
import time
from dom import *
import ropes
from ropes import decide, Infeasible, resolve_ch

sys.setrecursionlimit(200000)

NONE = A(None, 0, ())


def some(v):
    return A(None, 1, (v,))


def ok(v):
    return A(None, 0, (v,))


def err(v):
    return A(None, 1, (v,))


def tup(*v):
    return A(None, 0, tuple(v))


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.insts, self.files = d["types"], d["insts"], d["files"]
        self.roots = {n: i for n, i in d["roots"]}
        self.impls = {}
        for ty, tr, m, i in d["impls"]:
            self.impls[(ty, tr, m)] = i
        self.impl_by_name = {}
        for ty, tr, m, i in d["impls"]:
            self.impl_by_name[(self.tname(ty), tr, m)] = i

    def tname(self, t):
        x = self.types[t]
        k = x["k"]
        if k == "adt":
            return x["name"]
        if k in ("ref", "ptr"):
            return "&" + ("mut " if x["mut"] else "") + self.tname(x["to"])
        if k == "int":
            return ("i" if x["signed"] else "u") + str(x["bits"])
        if k == "tuple":
            return "(" + ",".join(self.tname(e) for e in x["elems"]) + ")"
        if k == "slice":
            return "[" + self.tname(x["elem"]) + "]"
        if k == "array":
            return "[%s;%s]" % (self.tname(x["elem"]), x["len"])
        if k in ("fndef", "closure"):
            return x["path"]
        if k == "dyn":
            return x["name"]
        return k

    def ctor(self, path):
        """(type, variant) of a tuple struct or variant constructor of a type without parameters"""
        if not hasattr(self, "_ctors"):
            self._ctors = {}
            for i, x in enumerate(self.types):
                if x["k"] == "adt":
                    for j, w in enumerate(x["variants"]):
                        names = [x["path"]] if x["enum"] == "struct" or x["enum"] is False else [x["path"] + "::" + w["name"]]
                        for n in names:
                            self._ctors[n] = None if n in self._ctors else (i, j)
        return self._ctors.get(path)

    def strip_refs(self, t):
        while self.types[t]["k"] in ("ref", "ptr"):
            t = self.types[t]["to"]
        return t


class Ctx:
    """where the analysis is: chain of calls"""
    __slots__ = ("up", "inst", "sp", "fid")

    def __init__(self, up, inst, sp, fid):
        self.up, self.inst, self.sp, self.fid = up, inst, sp, fid


FLOATOPS = ("fparsed", "fop", "ffun", "i2f")


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, A):
        return a.v == b.v and len(a.f) == len(b.f) and all(map(same_value, a.f, b.f))
    if isinstance(a, Seq):
        return len(a.e) == len(b.e) and all(map(same_value, a.e, b.e))
    return a == b


def grown(a, b):
    """b is the text a with more text after it"""
    if not isinstance(a, Rope) or not isinstance(b, Rope):
        return False
    n = len(a.s)
    if n == 0 or a.s == b.s[:n]:
        return True
    return a.s[:n - 1] == b.s[:n - 1] and len(b.s) >= n and isinstance(a.s[-1], str) and isinstance(b.s[n - 1], str) and b.s[n - 1].startswith(a.s[-1])


def no_progress(a, b):
    """nothing differs between two visits of a loop's head, but texts that grew"""
    if a.facts is not b.facts and a.facts != b.facts or a.log is not b.log or len(a.cells) != len(b.cells):
        return False
    for k, v in b.cells.items():
        w = a.cells.get(k)
        if w is not v and not same_value(w, v) and not grown(w, v):
            return False
    for k, v in a.syms.items():
        if b.syms.get(k) is not v:
            return False
    return True


class Interp:
    def __init__(self, prog, natives, max_steps=4_000_000, max_secs=60.0, max_paths=4000):
        self.p = prog
        self.nat = natives
        self.steps = 0
        self.max_steps, self.max_secs = max_steps, max_secs
        self.max_paths = max_paths
        self.t0 = time.time()
        self.nframe = 0
        self.abandoned = []
        self.checks = []
        self.funcs = set()
        self.unmodelled = {}
        self.consts = {}
        self.pred_cache = {}
        self.depth = 0
        self.trace = False

    # ------------------------------------------------------------ places
    def deref(self, st, v):
        if isinstance(v, Ref):
            return v.v
        if isinstance(v, Mut):
            return self.read_path(st, v.c, v.p)
        if isinstance(v, (Rope, Bytes)):
            return v
        if isinstance(v, Bx):
            return v.v
        if isinstance(v, (N, Seq, T, int, ChS, Lin)):
            return v
        raise Abandon("dereference of %r" % (v,))

    def proj(self, st, v, p):
        if p == "*":
            return self.deref(st, v)
        k = p[0]
        if k == "f":
            if isinstance(v, A):
                if p[1] >= len(v.f):
                    raise Abandon("field %r of %r" % (p, v))
                return v.f[p[1]]
            if isinstance(v, Bx) or isinstance(v, N) and v.k == "ubox":
                return v
            if isinstance(v, (Rope, Seq)) and p[1] == 0:
                return v         # the pointer of a box
            raise Abandon("field %r of %r" % (p, v))
        if k == "d":
            return v
        if k == "i":
            i = p[1]
            if isinstance(v, Seq) and isinstance(i, int):
                if i < len(v.e):
                    return v.e[i]
            if isinstance(v, Bytes) and isinstance(i, int):
                for x in st.norm(v.r).s:
                    if isinstance(x, str):
                        b = x.encode()
                        if i < len(b):
                            return b[i]
                        i -= len(b)
                    elif isinstance(x, Cs) and st.syms[x.id].cs & NONASCII == 0:
                        if i == 0:
                            return ChS(x.id)
                        i -= 1
                    else:
                        break
            raise Abandon("index")
        if k == "ci":
            if isinstance(v, Seq):
                i = p[1]
                if p[3]:
                    i = len(v.e) - i
                if 0 <= i < len(v.e):
                    return v.e[i]
            raise Abandon("constant index")
        if k == "mapv":
            if isinstance(v, MapV):
                return v.e[p[1]][1]
            raise Abandon("map value")
        if k == "ss":
            if isinstance(v, Seq):
                n = len(v.e)
                return Seq(v.e[p[1]:(n - p[2]) if p[3] else p[2]])
            raise Abandon("subslice")
        raise Abandon("projection %r" % (p,))

    def rproj(self, st, fr, pj):
        """resolve index locals"""
        out = []
        for p in pj:
            if p != "*" and p[0] == "i":
                i = st.nint(st.cells[(fr, p[1])])
                out.append(("i", i))
            elif p == "*":
                out.append("*")
            else:
                out.append(tuple(p))
        return out

    def read_path(self, st, c, path):
        v = st.cells.get(c, UNINIT)
        if v is UNINIT:
            raise Abandon("read of uninitialised %r" % (c,))
        for p in path:
            v = self.proj(st, v, p)
        return v

    def read(self, st, fr, place):
        l, pj = place
        v = st.cells.get((fr, l), UNINIT)
        if v is UNINIT:
            if not pj:
                return UNINIT
            raise Abandon("read of uninitialised local")
        for p in pj:
            if p != "*" and p[0] == "i":
                v = self.proj(st, v, ("i", st.nint(st.cells[(fr, p[1])])))
            else:
                v = self.proj(st, v, p)
        return v

    def locate(self, st, c, path):
        """follow unique references along a path: the final cell and path"""
        base = st.cells.get(c, UNINIT)
        v = base
        done = []
        for n, p in enumerate(path):
            if p == "*":
                if isinstance(v, Mut):
                    return self.locate(st, v.c, tuple(v.p) + tuple(path[n + 1:]))
                if isinstance(v, Bx):
                    done.append("*")
                    v = v.v
                    continue
                if isinstance(v, Rope):
                    done.append("*")
                    continue
                if isinstance(v, N) and v.k == "ubox":
                    return self.locate(st, v.f[0], tuple(path[n + 1:]))
                if isinstance(v, Ref):
                    return (None, Ref(self.follow(st, v.v, path[n + 1:])))
                raise Abandon("write through %r" % (v,))
            done.append(p)
            if v is not UNINIT:
                try:
                    v = self.proj(st, v, p)
                except Abandon:
                    v = UNINIT
        return c, tuple(done)

    def follow(self, st, v, path):
        for p in path:
            v = self.proj(st, v, p)
        return v

    def write_path(self, st, c, path, val):
        c, path = self.locate(st, c, path)
        if c is None:
            raise Abandon("write through a shared reference")
        if not path:
            st.cells[c] = val
            return
        st.cells[c] = self.upd(st.cells.get(c, UNINIT), path, 0, val)

    def upd(self, v, path, n, val):
        if n == len(path):
            return val
        p = path[n]
        if p == "*":
            if isinstance(v, Bx):
                return Bx(self.upd(v.v, path, n + 1, val))
            if isinstance(v, Rope):
                return self.upd(v, path, n + 1, val)
            raise Abandon("update through %r" % (v,))
        if p[0] == "f":
            if v is UNINIT:
                v = A(None, 0, ())
            if not isinstance(v, A):
                raise Abandon("field update of %r" % (v,))
            f = list(v.f)
            while len(f) <= p[1]:
                f.append(UNINIT)
            f[p[1]] = self.upd(f[p[1]], path, n + 1, val)
            return A(v.ty, v.v, tuple(f))
        if p[0] == "d":
            if v is UNINIT:
                v = A(None, p[1], ())
            elif v.v != p[1]:
                v = A(v.ty, p[1], ())
            return self.upd(v, path, n + 1, val)
        if p[0] in ("i", "ci"):
            if isinstance(v, Seq):
                i = p[1] if p[0] == "i" else (len(v.e) - p[1] if p[3] else p[1])
                if isinstance(i, int) and 0 <= i < len(v.e):
                    e = list(v.e)
                    e[i] = self.upd(e[i], path, n + 1, val)
                    return Seq(tuple(e))
            raise Abandon("index update")
        if p[0] == "mapv":
            e = list(v.e)
            e[p[1]] = (e[p[1]][0], self.upd(e[p[1]][1], path, n + 1, val))
            return MapV(v.k, tuple(e))
        raise Abandon("update %r" % (p,))

    def write(self, st, fr, place, val):
        l, pj = place
        if not pj:
            st.cells[(fr, l)] = val
        else:
            self.write_path(st, (fr, l), tuple(self.rproj(st, fr, pj)), val)

    def mutref(self, st, fr, place):
        l, pj = place
        c, path = self.locate(st, (fr, l), tuple(self.rproj(st, fr, pj)))
        if c is None:
            return path          # a unique borrow of something shared (only read in practice)
        return Mut(c, path)

    # ------------------------------------------------------------ types of places
    def place_ty(self, body, place):
        t = body["locals"][place[0]]
        for p in place[1]:
            x = self.p.types[t]
            if p == "*":
                if "to" in x:
                    t = x["to"]
                else:
                    return None
            elif p[0] == "f":
                t = p[2]
            elif p[0] == "d":
                pass
            elif p[0] in ("i", "ci"):
                t = x.get("elem")
                if t is None:
                    return None
            elif p[0] == "ss":
                pass
            else:
                return None
        return t

    def op_ty(self, body, o):
        if o[0] in ("c", "m"):
            return self.place_ty(body, o[1])
        if o[0] == "k":
            return o[1]
        return None

    def int_info(self, t):
        if t is None:
            return None
        x = self.p.types[t]
        if x["k"] == "int":
            return x["bits"], x["signed"]
        if x["k"] == "char":
            return 32, False
        if x["k"] == "bool":
            return 1, False
        return None

    # ------------------------------------------------------------ constants
    def const(self, ty, v):
        k = v[0]
        if k in ("int", "bool", "char"):
            return v[1]
        if k == "zst":
            return self.zst(ty)
        if k == "str":
            return R(v[1])
        t = self.p.types[ty] if ty is not None else {"k": "other"}
        if k == "ref":
            inner = v[1]
            if inner[0] == "str":
                return R(inner[1])
            to = t.get("to")
            return Ref(self.const(to, inner))
        if k == "bytes":
            return Seq(tuple(v[1]))
        if k == "seq":
            el = t.get("elem")
            return Seq(tuple(self.const(el, e) for e in v[1]))
        if k == "agg":
            if t["k"] == "adt":
                if t["path"] == "std::vec::Vec":
                    return Seq(())
                if t["path"] == "std::string::String":
                    return EMPTY
                fs = t["variants"][v[1]]["fields"] if t["variants"] else []
                fv = tuple(self.const(f[1], x) for f, x in zip(fs, v[2]))
                if t["krate"] == "chrono" and t["path"].endswith("TimeDelta"):
                    return N("dur", *fv)
                return A(ty, v[1], fv)
            if t["k"] == "tuple":
                return A(None, 0, tuple(self.const(e, x) for e, x in zip(t["elems"], v[2])))
            if t["k"] == "closure":
                return A(ty, 0, ())
            return A(None, v[1], tuple(self.const(None, x) for x in v[2]))
        if k == "fn":
            return Fn(v[1])
        if k == "float":
            import nmore
            return nmore.float_of_bits(v[1], self.p.types[ty]["bits"]) if ty is not None and self.p.types[ty]["k"] == "float" else T("float", v[1])
        raise Abandon("constant of type %s" % (self.p.tname(ty) if ty is not None else "?"))

    def zst(self, ty):
        t = self.p.types[ty]
        k = t["k"]
        if k == "fndef":
            return Fn(t["inst"], ty)
        if k == "closure":
            return A(ty, 0, ())
        if k == "adt":
            if t["enum"] and not t["variants"]:
                raise Abandon("value of an empty type")
            if t["path"] in ("std::vec::Vec",):
                return Seq(())
            fs = t["variants"][0]["fields"] if t["variants"] else []
            return A(ty, 0, tuple(self.zst(f[1]) for f in fs))
        if k == "tuple":
            return A(None, 0, tuple(self.zst(e) for e in t["elems"]))
        if k == "array":
            return Seq(())
        return UNIT

    def operand(self, st, fr, o):
        k = o[0]
        if k == "m" or k == "c":
            return self.read(st, fr, o[1])
        if k == "k":
            key = id(o)
            v = self.consts.get(key)
            if v is None:
                v = self.const(o[1], o[2])
                self.consts[key] = v
            return v
        if k == "rt":
            return False
        raise Abandon("operand %r" % (o,))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, body, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            if rv[2] in ("shr", "fake"):
                v = self.read(st, fr, rv[1])
                if v is UNINIT:
                    raise Abandon("reference to an uninitialised place")
                return v if self.is_str_place(body, rv[1]) and isinstance(v, (Rope, Bytes)) else Ref(v)
            if self.is_str_place(body, rv[1]):
                v = self.read(st, fr, rv[1])
                if isinstance(v, Rope):
                    return v
            return self.mutref(st, fr, rv[1])
        if k == "agg":
            kind = rv[1]
            vals = tuple(self.operand(st, fr, o) for o in rv[2])
            if kind[0] == "array":
                return Seq(vals)
            if kind[0] == "tuple":
                return A(None, 0, vals)
            if kind[0] == "adt":
                if len(kind) > 3 and kind[3] is not None and kind[3] != -1:
                    raise Abandon("union")
                return A(kind[1], kind[2], vals)
            if kind[0] == "closure":
                return A(kind[1], 0, vals)
            raise Abandon("aggregate " + kind[0])
        if k == "bin" or k == "cbin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            if isinstance(a, float) or isinstance(b, float) or isinstance(a, T) and a.op in FLOATOPS:
                return self.float_bin(rv[1], a, b, self.p.types[self.op_ty(body, rv[2])]["bits"])
            ti = self.int_info(self.op_ty(body, rv[2]))
            return self.binop(st, rv[1], a, b, ti, k == "cbin")
        if k == "cast":
            return self.cast(st, fr, body, rv)
        if k == "discr":
            v = self.read(st, fr, rv[1])
            t = self.place_ty(body, rv[1])
            if isinstance(v, A):
                x = self.p.types[t]
                if x["k"] == "adt" and x["variants"]:
                    return x["variants"][v.v]["discr"] if not isinstance(x["variants"][v.v]["discr"], str) else int(x["variants"][v.v]["discr"])
                return v.v
            raise Abandon("discriminant of %r" % (v,))
        if k == "len":
            v = self.read(st, fr, rv[1])
            if isinstance(v, Seq):
                return len(v.e)
            if isinstance(v, Bytes):
                return st.rlen(v.r)
            raise Abandon("length of %r" % (v,))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return Seq((v,) * rv[2])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isinstance(v, (bool, B)):
                    return b_not(v)
                if isinstance(v, int):
                    ti = self.int_info(self.op_ty(body, rv[2]))
                    return ~v if ti and ti[1] else (~v) & ((1 << ti[0]) - 1)
            if rv[1] == "Neg":
                return lin_scale(v, -1)
            if rv[1] == "PtrMetadata":
                if isinstance(v, Rope):
                    return st.rlen(v)
                x = self.deref(st, v)
                if isinstance(x, Seq):
                    return len(x.e)
                if isinstance(x, Rope):
                    return st.rlen(x)
                if isinstance(x, Bytes):
                    return st.rlen(x.r)
            raise Abandon("operator " + rv[1])
        raise Abandon("rvalue " + k)

    def is_str_place(self, body, place):
        t = self.place_ty(body, place)
        return t is not None and self.p.types[t]["k"] == "str"

    def float_bin(self, op, a, b, n):
        import nmore
        if isinstance(a, float) and isinstance(b, float):
            return nmore.float_op(op, a, b, n)
        t = T("fop", op, a, b, n)
        return B("app", t) if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else t

    def binop(self, st, op, a, b, ti, checked):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            return self.compare(st, op, a, b)
        if isinstance(a, Lin):
            a = st.nint(a)
        if isinstance(b, Lin):
            b = st.nint(b)
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            if op == "BitAnd":
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return B("and", a, b)
            if op == "BitOr":
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
                return B("or", a, b)
            if op == "BitXor" and isinstance(a, bool) and isinstance(b, bool):
                return a != b
            if op == "BitXor" and isinstance(b, bool):
                return b_not(a) if b else a
            if op == "BitXor" and isinstance(a, bool):
                return b_not(b) if a else b
            raise Abandon("boolean operator")
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            raise Abandon("arithmetic on %r and %r" % (a, b))
        if op in ("Add", "Sub"):
            r = lin_add(a, b, 1 if op == "Add" else -1)
        elif op == "Mul":
            if isinstance(a, int):
                r = lin_scale(b, a)
            elif isinstance(b, int):
                r = lin_scale(a, b)
            else:
                r = self.opaque_int(st, "mul", (a, b))
        elif isinstance(a, int) and isinstance(b, int):
            if op == "Div":
                r = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1) if b else 0
            elif op == "Rem":
                r = abs(a) % abs(b) * (1 if a >= 0 else -1) if b else 0
            elif op == "BitAnd":
                r = a & b
            elif op == "BitOr":
                r = a | b
            elif op == "BitXor":
                r = a ^ b
            elif op == "Shl":
                r = a << b
            elif op == "Shr":
                r = a >> b
            else:
                raise Abandon("operator " + op)
        elif op in ("Div", "Rem"):
            lo, hi = st.irange(a)
            if isinstance(b, int) and b > 0 and lo >= 0:
                r = self.opaque_int(st, op.lower(), (a, b), 0, hi // b if op == "Div" else b - 1)
            else:
                r = self.opaque_int(st, op.lower(), (a, b))
        else:
            raise Abandon("operator %s on symbolic integers" % op)
        if ti is None:
            return tup(r, False) if checked else r
        bits_, signed = ti
        mn, mx = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if signed else (0, (1 << bits_) - 1)
        if checked:
            if isinstance(r, int):
                o = not (mn <= r <= mx)
                if o:
                    r = (r - mn) % (1 << bits_) + mn
                return tup(r, o)
            lo, hi = st.irange(r)
            conds = []
            if lo < mn:
                conds.append(B("le", lin_add(r, mn - 1, -1)))       # r <= mn-1
            if hi > mx:
                conds.append(B("le", lin_add(mx + 1, r, -1)))       # mx+1 <= r
            if not conds:
                return tup(r, False)
            return tup(r, conds[0] if len(conds) == 1 else B("or", conds[0], conds[1]))
        if isinstance(r, int):
            if not (mn <= r <= mx):
                r = (r - mn) % (1 << bits_) + mn
        else:
            lo, hi = st.irange(r)
            if lo < mn or hi > mx:
                # wrapping arithmetic on an unbounded value
                r = self.opaque_int(st, "wrap", (r, bits_, signed), mn, mx)
        return r

    def opaque_int(self, st, op, args, lo=-BIG * 4, hi=BIG * 4):
        id = "i:%s%r" % (op, args)
        if id not in st.syms:
            st.syms[id] = Sym("i", lo=lo, hi=hi, df=T(op, *args))
        return st.nint(mk_lin(0, {id: 1}))

    def compare(self, st, op, a, b):
        if isinstance(a, ChS) or isinstance(b, ChS):
            a, b = resolve_ch(st, a), resolve_ch(st, b)
            if isinstance(a, ChS) or isinstance(b, ChS):
                if op in ("Eq", "Ne"):
                    c = B("cheq", a, b)
                    return c if op == "Eq" else b_not(c)
                # ranges against a constant
                if isinstance(b, int) and isinstance(a, ChS):
                    return self.ch_range(st, op, a, b)
                if isinstance(a, int) and isinstance(b, ChS):
                    return self.ch_range(st, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op], b, a)
                raise Abandon("order of characters")
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(b, bool):
                r = a if b else b_not(a)
            elif isinstance(a, bool):
                r = b if a else b_not(b)
            else:
                raise Abandon("comparison of conditions")
            if op == "Eq":
                return r
            if op == "Ne":
                return b_not(r)
            raise Abandon("order of conditions")
        if isinstance(a, T) or isinstance(b, T):
            if op in ("Eq", "Ne"):
                if a == b:
                    return op == "Eq"
                c = B("app", T("teq", a, b))
                return c if op == "Eq" else b_not(c)
            raise Abandon("order of opaque values")
        if not isinstance(a, (int, Lin)) or not isinstance(b, (int, Lin)):
            if op in ("Eq", "Ne") and isinstance(a, (A, Ref, Fn)) and type(a) == type(b):
                raise Abandon("comparison of references")
            raise Abandon("comparison of %r and %r" % (a, b))
        d = lin_add(a, b, -1)
        if isinstance(d, Lin):
            d = st.nint(d)
        if op == "Cmp":
            if isinstance(d, int):
                return A(None, 0 if d < 0 else 1 if d == 0 else 2, ())
            return N("cmp", d)
        if isinstance(d, int):
            return {"Eq": d == 0, "Ne": d != 0, "Lt": d < 0, "Le": d <= 0, "Gt": d > 0, "Ge": d >= 0}[op]
        if op == "Eq":
            return B("eq", d)
        if op == "Ne":
            return b_not(B("eq", d))
        if op == "Le":
            return B("le", d)
        if op == "Lt":
            return B("le", lin_add(d, 1))
        if op == "Ge":
            return B("le", lin_scale(d, -1))
        return B("le", lin_add(lin_scale(d, -1), 1))

    def ch_range(self, st, op, c, n):
        cs = 0
        undecided = 0
        for a in atoms(st.syms[c.id].cs):
            if is_single(a):
                o = ord(ATOM_REPR[a])
                if {"Lt": o < n, "Le": o <= n, "Gt": o > n, "Ge": o >= n}[op]:
                    cs |= 1 << a
            else:
                # classes above ASCII: decided when the bound is in ASCII
                if n < 128:
                    if op in ("Gt", "Ge"):
                        cs |= 1 << a
                else:
                    undecided |= 1 << a
        if undecided:
            raise Abandon("order of a character above ASCII")
        return B("chin", c, cs)

    def cast(self, st, fr, body, rv):
        kind, o, ty, inst = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(st, fr, o)
        if kind.startswith("PointerCoercion(Reify") or kind.startswith("PointerCoercion(ClosureFn"):
            if isinstance(v, A) and v.ty is not None and self.p.types[v.ty]["k"] == "closure":
                return v
            if inst is not None:
                return Fn(inst)
            return v
        if kind.startswith("PointerCoercion(Unsize"):
            to = self.p.types[ty]
            if "to" in to and self.p.types[to["to"]]["k"] == "dyn":
                src = self.op_ty(body, o)
                return N("dyn", v, self.p.types[src].get("to"))
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "IntToInt":
            ti = self.int_info(ty)
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, ChS):
                v = resolve_ch(st, v)
            if isinstance(v, ChS):
                if ti and ti[0] >= 32:
                    return v
                cs = st.syms[v.id].cs
                if cs & NONASCII == 0:
                    return v
                raise Abandon("cast of a character")
            if isinstance(v, A):
                t = self.p.types[self.op_ty(body, o)]
                v = int(t["variants"][v.v]["discr"])
                if v > 127 and t.get("path", "").endswith("cmp::Ordering"):
                    v -= 256
            if not isinstance(v, (int, Lin)) or ti is None:
                raise Abandon("integer cast of %r" % (v,))
            bits_, signed = ti
            mn, mx = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if signed else (0, (1 << bits_) - 1)
            lo, hi = st.irange(st.nint(v))
            if mn <= lo and hi <= mx:
                return v
            if isinstance(v, int):
                return (v - mn) % (1 << bits_) + mn
            return self.opaque_int(st, "wrap", (v, bits_, signed), mn, mx)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            import nmore
            t = self.p.types[ty]
            if kind == "IntToFloat":
                v = st.nint(v)
                return nmore.fround(float(v), t["bits"]) if isinstance(v, int) else T("i2f", v, t["bits"])
            if kind == "FloatToFloat":
                return nmore.fround(v, t["bits"]) if isinstance(v, float) else T("ffun", "id", t["bits"], v)
            bits_, signed = self.int_info(ty)
            mn, mx = (-(1 << (bits_ - 1)), (1 << (bits_ - 1)) - 1) if signed else (0, (1 << bits_) - 1)
            return nmore.float_to_int(v, mn, mx) if isinstance(v, float) else self.opaque_int(st, "f2i", (v, mn, mx), mn, mx)
        if kind in ("Transmute", "PtrToPtr", "BoxDerefTransmute"):
            if isinstance(v, N) and v.k == "ubox":
                return v
            if isinstance(v, (Ref, Mut, Rope, Bytes, Seq)):
                t = self.p.types[ty]
                if t["k"] in ("ref", "ptr"):
                    return v
            if isinstance(v, Bx) and self.p.types[ty]["k"] in ("ptr", "ref"):
                return v
            raise Abandon("cast " + kind)
        if kind == "PointerExposeAddress":
            st.log = st.log + (("address",),)
            return mk_lin(0, {st.fresh("address", kind="i", lo=1, hi=2**47): 1})
        raise Abandon("cast " + kind)

    # ------------------------------------------------------------ running
    def where(self, ctx):
        """innermost location inside the analysed crate, and the chain of calls"""
        out = []
        c = ctx
        while c is not None:
            i = self.p.insts[c.inst]
            sp = c.sp
            out.append((i["path"], self.p.files[sp[0]] if sp else "?", sp[1] if sp else 0, i["krate"]))
            c = c.up
        return out

    def run(self, st, inst, args, ctx=None):
        """interpret a function body; yields (state, value or Panic)"""
        p = self.p
        I = p.insts[inst]
        body = I["body"]
        self.nframe += 1
        fr = self.nframe
        self.funcs.add(inst)
        depth = 0
        c = ctx
        while c is not None:
            depth += 1
            c = c.up
        if depth > 400:
            raise Abandon("call depth")
        for n, a in enumerate(args):
            st.cells[(fr, n + 1)] = a
        if len(args) != body["args"]:
            raise Abandon("arity of %s: %d for %d" % (I["path"], len(args), body["args"]))
        blocks = body["blocks"]
        nloc = len(body["locals"])
        lib = I["krate"] == "icalendar"
        my = Ctx(ctx, inst, None, fr)
        yield from self.exec(st, inst, fr, 0, None, my, lib, nloc)

    def exec(self, st, inst, fr, bb0, visits0, my, lib, nloc, stop=None):
        """interpret from a block; with stop = (head, blocks of its loop) the interpretation ends,
        yielding (state, head's number), where control is back at the head or leaves the loop"""
        blocks = self.p.insts[inst]["body"]["blocks"]
        body = self.p.insts[inst]["body"]
        work = [(st, bb0, visits0)]
        first = stop is not None
        loops = self.loop_heads(inst)
        while work:
            st, bb, visits = work.pop()
            try:
                while True:
                    if stop is not None:
                        if first:
                            first = False
                        elif bb == stop[0] or bb not in stop[1]:
                            yield st, ("at", bb)
                            break
                    self.steps += 1
                    if self.steps > self.max_steps or (self.steps & 255) == 0 and time.time() - self.t0 > self.max_secs:
                        raise Budget("analysis budget")
                    if bb in loops and (stop is None or bb != stop[0]):
                        visits = dict(visits or {})
                        visits[bb] = visits.get(bb, 0) + 1
                        r = self.nat.at_loop_head(self, st, inst, fr, bb, visits[bb], my, body)
                        if r is not None:
                            for s2, nb, nv in r:
                                work.append((s2, nb, dict(visits) if nv is None else nv))
                            break
                        if lib and visits[bb] > 12:
                            # the same state again and again, but for texts that grow: the loop has no end
                            old = visits.get(("seen", bb))
                            n = old[1] + 1 if old and no_progress(old[0], st) else 0
                            if n >= 8 and n % 8 == 0 and self.never_ends(old[0], st, inst, fr, bb, my, lib, nloc):
                                sp = body["blocks"][bb]["sp"]
                                if sp:
                                    my.sp = sp
                                pa = Panic("a loop that never ends", self.where(my))
                                self.pop(st, fr, nloc)
                                yield st, pa
                                break
                            visits[("seen", bb)] = (st.clone(), n)
                        if visits[bb] > 3000:
                            raise Abandon("loop bound")
                    blk = blocks[bb]
                    for s in blk["s"]:
                        if s[0] == "=":
                            my.sp = s[3]
                            x = self.rvalue(st, fr, body, s[2])
                            if s[2][0] == "discr" and type(x) is int and x > 127:
                                ti = self.int_info(self.place_ty(body, s[1]))
                                if ti and ti[1] and x >> (ti[0] - 1):
                                    x -= 1 << ti[0]
                            self.write(st, fr, s[1], x)
                        elif s[0] == "sd":
                            v = self.read(st, fr, s[1])
                            self.write(st, fr, s[1], A(v.ty if isinstance(v, A) else None, s[2], v.f if isinstance(v, A) else ()))
                        else:
                            raise Abandon("statement " + s[0])
                    t = blk["t"]
                    my.sp = blk["sp"]
                    k = t[0]
                    if k == "goto":
                        bb = t[1]
                    elif k == "drop":
                        bb = t[2]
                    elif k == "return":
                        v = st.cells.get((fr, 0), UNIT)
                        self.pop(st, fr, nloc)
                        yield st, v
                        break
                    elif k == "switch":
                        v = self.operand(st, fr, t[1])
                        nxt = self.switch(st, fr, body, v, t)
                        if lib:
                            for s2, b2 in nxt:
                                s2.stack = ((inst, my.sp, b2), s2.stack)
                        if len(nxt) == 1:
                            st, bb = nxt[0]
                        else:
                            for s2, b2 in nxt[1:]:
                                work.append((s2, b2, visits))
                            if not nxt:
                                break
                            st, bb = nxt[0]
                            if len(work) > self.max_paths:
                                raise Budget("paths")
                    elif k == "assert":
                        c = self.operand(st, fr, t[1])
                        want = t[2]
                        outs = list(decide(st, c))
                        go = None
                        for s2, v in outs:
                            if v == want:
                                if go is None:
                                    go = s2
                                else:
                                    work.append((s2, t[4], visits))
                            else:
                                pa = Panic(t[3], self.where(my))
                                self.pop(s2, fr, nloc)
                                yield s2, pa
                        if go is None:
                            break
                        st, bb = go, t[4]
                    elif k == "call":
                        args2 = [self.operand(st, fr, a) for a in t[2]]
                        tgt = t[4]
                        dest = t[3]
                        fnv = t[1]
                        done = False
                        # fast path: natives that return a plain value
                        for s2, v in self.call_op(st, fr, body, fnv, args2, my, dest):
                            if isinstance(v, Panic):
                                self.pop(s2, fr, nloc)
                                yield s2, v
                                continue
                            if tgt is None:
                                continue
                            self.write(s2, fr, dest, v)
                            work.append((s2, tgt, visits))
                            if len(work) > self.max_paths:
                                raise Budget("paths")
                        break
                    elif k == "unreachable":
                        raise Abandon("unreachable code reached")
                    else:
                        raise Abandon("terminator " + k)
            except Abandon as e:
                self.abandon(e, my)
            except Infeasible:
                pass
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, NotImplementedError) as e:
                self.abandon(Abandon("internal: %s: %s" % (type(e).__name__, e)), my)

    def never_ends(self, old, st, inst, fr, bb, my, lib, nloc):
        """one more turn with any texts in the place of those that grow comes back to where it began"""
        s = st.clone()
        for k, v in old.cells.items():
            w = s.cells.get(k)
            if w is not v and not same_value(v, w):
                s.cells[k] = Rope((Sy(s.fresh("text", kind="s", cs=ALL, lo=0, hi=BIG)),))
        a = s.clone()
        import loops
        given, log = len(self.abandoned), len(self.checks)
        out = []
        try:
            for x in self.exec(s, inst, fr, bb, None, my, lib, nloc, stop=(bb, loops.loop_blocks(self, inst, bb))):
                out.append(x)
                if len(out) > 1:
                    break
        except (Abandon, Budget):
            out = []
        ok = len(out) == 1 and out[0][1] == ("at", bb) and len(self.abandoned) == given and len(self.checks) == log and no_progress(a, out[0][0])
        del self.abandoned[given:], self.checks[log:]
        return ok

    def pop(self, st, fr, n):
        cells = st.cells
        for i in range(n):
            cells.pop((fr, i), None)

    def abandon(self, e, ctx):
        w = self.where(ctx)
        site = next((x for x in w if x[3] == "icalendar"), w[0] if w else None)
        inner = w[0] if w else None
        self.abandoned.append((str(e), site, inner))
        if self.trace:
            print("ABANDON", e, [(x[0], x[2]) for x in w[:6]], file=sys.stderr)

    def switch(self, st, fr, body, v, t):
        br, other = t[2], t[3]
        if isinstance(v, (bool, int)):
            n = int(v)
            if n < 0:
                ti = self.int_info(self.op_ty(body, t[1]))
                n &= (1 << ti[0]) - 1
            for val, b in br:
                if val == n:
                    return [(st, b)]
            return [(st, other)]
        if isinstance(v, B):
            out = []
            tgt = {}
            for val, b in br:
                tgt[bool(val)] = b
            for s2, x in decide(st, v):
                out.append((s2, tgt.get(x, other)))
            return out
        out = []
        cur = [st]
        if isinstance(v, Lin):
            ti = self.int_info(self.op_ty(body, t[1]))
            for val, b in br:
                nxt = []
                if ti and ti[1] and val >> (ti[0] - 1):
                    val -= 1 << ti[0]
                for s in cur:
                    for s2, x in decide(s, self.compare(s, "Eq", v, val)):
                        if x:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, other) for s in cur]
        if isinstance(v, ChS):
            for val, b in br:
                nxt = []
                for s in cur:
                    for s2, x in ropes.ch_eq(s, v, val):
                        if x:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, other) for s in cur]
        raise Abandon("branch on %r" % (v,))

    def call_op(self, st, fr, body, fn, args, ctx, dest):
        if fn[0] == "k":
            t = self.p.types[fn[1]]
            if t["k"] == "fndef":
                yield from self.call(st, t["inst"], args, ctx, t["path"])
                return
        v = self.operand(st, fr, fn)
        yield from self.call_value(st, v, args, ctx)

    FN_TRAIT = ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")

    def call(self, st, inst, args, ctx, path=None):
        if inst is None:
            raise Abandon("unresolved call of %s" % path)
        I = self.p.insts[inst]
        if path in self.FN_TRAIT and len(args) == 2:
            a = args[1]
            if isinstance(a, A):
                yield from self.call_value(st, args[0], list(a.f), ctx)
                return
        n = self.nat.lookup(self, I)
        if n is not None:
            r = n(self, st, args, I, ctx)
            if r is None or not hasattr(r, "__next__"):
                yield st, (UNIT if r is None else r)
            else:
                try:
                    yield from r
                except Abandon as e:
                    self.abandon(e, ctx)
                except Infeasible:
                    pass
                except (AttributeError, TypeError, KeyError, IndexError, ValueError, NotImplementedError) as e:
                    self.abandon(Abandon("internal: %s: %s" % (type(e).__name__, e)), ctx)
            return
        if I["body"] is None:
            c = self.p.ctor(I["path"])
            if c is not None:
                yield st, A(c[0], c[1], tuple(args))
                return
            self.unmodelled[I["path"]] = self.unmodelled.get(I["path"], 0) + 1
            raise Abandon("no model of %s" % I["path"])
        yield from self.run(st, inst, args, ctx)

    def call_value(self, st, f, args, ctx):
        """call a closure or function value; unique state of an owned closure is lost"""
        for s, v, _ in self.call_mut(st, f, args, ctx):
            yield s, v

    def call_mut(self, st, f, args, ctx):
        """yields (state, result, closure afterwards)"""
        orig = f
        holder = None
        while True:
            if isinstance(f, Mut):
                holder = f
                f = self.read_path(st, f.c, f.p)
            elif isinstance(f, Ref):
                holder = None
                f = f.v
            elif isinstance(f, Bx):
                holder = None
                f = f.v
            elif isinstance(f, N) and f.k == "dyn":
                f = f.f[0]
            else:
                break
        if isinstance(f, Fn):
            if f.i is None:
                raise Abandon("unresolved function value")
            pth = self.p.types[f.ty]["path"] if f.ty is not None else None
            for s, v in self.call(st, f.i, args, ctx, pth):
                yield s, v, orig
            return
        if isinstance(f, A) and f.ty is not None and self.p.types[f.ty]["k"] == "closure":
            t = self.p.types[f.ty]
            if t["ckind"] == "fn":
                for s, v in self.call(st, t["inst"], [Ref(f)] + args, ctx):
                    yield s, v, orig
                return
            if t["ckind"] == "fnonce":
                for s, v in self.call(st, t["inst"], [f] + args, ctx):
                    yield s, v, orig
                return
            if holder is not None:
                for s, v in self.call(st, t["inst"], [holder] + args, ctx):
                    yield s, v, orig
                return
            self.nframe += 1
            c = (self.nframe, "cl")
            st.cells[c] = f
            for s, v in self.call(st, t["inst"], [Mut(c, ())] + args, ctx):
                g = s.cells.pop(c, f)
                yield s, v, g
            return
        if isinstance(f, N) and f.k == "pyfn":
            for s, v in f.f[0](st, args):
                yield s, v, orig
            return
        raise Abandon("call of %r" % (f,))

    # ------------------------------------------------------------ loops
    _heads = {}

    def loop_heads(self, inst):
        h = self._heads.get(inst)
        if h is None:
            h = set()
            blocks = self.p.insts[inst]["body"]["blocks"]
            color = {}
            stack = [(0, iter(self.succ(blocks[0])))]
            color[0] = 1
            while stack:
                n, it = stack[-1]
                for m in it:
                    if color.get(m, 0) == 0:
                        color[m] = 1
                        stack.append((m, iter(self.succ(blocks[m]))))
                        break
                    elif color[m] == 1:
                        h.add(m)
                else:
                    color[n] = 2
                    stack.pop()
            self._heads[inst] = h
        return h

    @staticmethod
    def succ(blk):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    # ------------------------------------------------------------ predicates on characters
    def pred_bits(self, st, f, ctx):
        """characters (as a class) accepted by a predicate"""
        key = None
        try:
            key = hash_key(f)
        except TypeError:
            pass
        if key is not None and key in self.pred_cache:
            return self.pred_cache[key]
        out = 0
        for a in range(NATOM):
            res = []
            for s, v in self.call_value(st.clone(), f, [ord(ATOM_REPR[a])], ctx):
                if isinstance(v, Panic):
                    raise Abandon("predicate panics")
                for s2, b in decide(s, v):
                    res.append(b)
            if len(set(res)) != 1:
                raise Abandon("character predicate is not a function of the character")
            if res[0]:
                out |= 1 << a
        if key is not None:
            self.pred_cache[key] = out
        return out


def hash_key(v):
    if isinstance(v, Mut):
        raise TypeError
    if isinstance(v, (A,)):
        return ("A", v.ty, v.v, tuple(hash_key(x) for x in v.f))
    if isinstance(v, Ref):
        return ("R", hash_key(v.v))
    if isinstance(v, Seq):
        return ("S", tuple(hash_key(x) for x in v.e))
    if isinstance(v, Fn):
        return ("F", v.i)
    if isinstance(v, (int, str, Rope)):
        return v
    raise TypeError
