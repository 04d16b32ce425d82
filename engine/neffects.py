"""State outside the arguments: static counters and flags, the environment, clocks, random numbers, addresses.
Every read gives any value of its type, so that nothing that depends on it can be proven, and
two runs that differ only in what they read are told apart."""
import re
from natives import *
from natives import P, TR
from nmore import cellof
from dom import *


def b_any(ip, st, tag):
    return B("eq", mk_lin(-1, {st.fresh(tag, kind="i", lo=0, hi=1): 1}))


INTS = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
        "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1)}


def atom(ip, st, what):
    if what == "bool":
        return b_any(ip, st, "static")
    if what in INTS:
        lo, hi = INTS[what]
        return mk_lin(0, {st.fresh("static", kind="i", lo=lo, hi=hi): 1})
    raise Abandon("atomic %s" % what)


def local(ip, st, v):
    """the cell of an atomic made on this path, None for a static one"""
    v = val(ip, st, v)
    return v.f[0] if isinstance(v, N) and v.k == "cell" else None


def atomic(name):
    def get(ip, st, a, I, ctx):
        what = re.search(r"Atomic::<(\w+)>", I["path"])
        what = what.group(1) if what else "?"
        st.log = st.log + (("static",),)
        c = local(ip, st, a[0])
        if c is None:
            old = atom(ip, st, what)
        else:
            old = st.cells[c]
            if name in ("store", "swap"):
                st.cells[c] = a[1]
            elif name == "fetch_add":
                st.cells[c] = st.nint(lin_add(st.nint(old), st.nint(a[1])))
                lo, hi = INTS[what]
                x, y = st.irange(st.cells[c]) if not isinstance(st.cells[c], int) else (st.cells[c],) * 2
                if x < lo or y > hi:
                    raise Abandon("atomic overflow")
            elif name != "load" and name != "into_inner":
                raise Abandon("atomic " + name)
        if name == "store":
            return UNIT
        if name in ("compare_exchange", "compare_exchange_weak", "compare_and_swap", "fetch_update"):
            return two(ip, st, ok(old), err(old))
        return old
    return get


def two(ip, st, x, y):
    yield st.clone(), x
    yield st.clone(), y


for _n in ("load", "store", "swap", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_nand", "fetch_max", "fetch_min",
           "compare_exchange", "compare_exchange_weak", "compare_and_swap", "fetch_update", "into_inner"):
    P["std::sync::atomic::Atomic::" + _n] = atomic(_n)
P["std::sync::atomic::Atomic::new"] = P["std::sync::atomic::AtomicUsize::new"]


@path("std::thread::LocalKey::with")
def key_with(ip, st, a, I, ctx):
    """of a cell with a number or a flag: any content"""
    t = next((x for x in [I["self"]] + list(I["args"]) if isinstance(x, int) and ip.p.types[x].get("path", "").startswith("std::cell::")), None)
    if t is None or not ip.p.types[t].get("args"):
        raise Abandon("thread local")
    u = ip.p.types[ip.p.types[t]["args"][0]]
    st.log = st.log + (("static",),)
    what = "bool" if u["k"] == "bool" else (("i" if u.get("signed") else "u") + str(u["bits"])) if u["k"] == "int" else "?"
    ip.nframe += 1
    c = (ip.nframe, "cell")
    st.cells[c] = atom(ip, st, what)
    yield from ip.call_value(st, a[1], [Ref(N("cell", c))], ctx)


# ------------------------------------------------------------------ environment
def anytext(st):
    return Rope((Sy(st.fresh("env", kind="s", cs=ALL, lo=0, hi=BIG)),))


@path("std::env::var_os")
def env_os(ip, st, a, I, ctx):
    st.log = st.log + (("env",),)
    s = st.clone()
    yield s, some(anytext(s))
    yield st.clone(), NONE


@path("std::env::var")
def env_var(ip, st, a, I, ctx):
    st.log = st.log + (("env",),)
    s = st.clone()
    yield s, ok(anytext(s))
    yield st.clone(), err(N("enverr"))


@path("std::process::id")
def proc_id(ip, st, a, I, ctx):
    return atom(ip, st, "u32")


# ------------------------------------------------------------------ clocks and hash seeds
@path("std::time::Instant::now", "std::time::SystemTime::now")
def now(ip, st, a, I, ctx):
    st.log = st.log + (("clock",),)
    return N("clock", State._n)


def lapse(ip, st):
    return N("stdd", mk_lin(0, {st.fresh("clock", kind="i", lo=0, hi=2**40): 1}), mk_lin(0, {st.fresh("clock", kind="i", lo=0, hi=999999999): 1}))


@path("std::time::Instant::elapsed", "std::time::Instant::duration_since")
def elapsed(ip, st, a, I, ctx):
    return lapse(ip, st)


@path("std::time::SystemTime::duration_since", "std::time::SystemTime::elapsed")
def since(ip, st, a, I, ctx):
    return ok(lapse(ip, st))


@path("<std::hash::RandomState as std::hash::BuildHasher>::hash_one")
def hash_one(ip, st, a, I, ctx):
    return atom(ip, st, "u64")
