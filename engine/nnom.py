"""Models of the input traits of nom for &str; the combinators themselves are analysed."""
from natives import *
import ropes
from nstr import starts_nocase, rope_prefix

OK, INCOMPLETE, ERROR = A(None, 0, ()), A(None, 1, ()), A(None, 2, ())


def on_str(ip, I):
    s = stripref(ip, I["self"])
    return s is not None and ip.p.types[s]["k"] == "str"


@trait("nom::traits::Compare::compare")
@sel
def nom_compare(ip, I, s, k, k2):
    return do_compare if tyk(ip, k2) == "str" else None


def do_compare(ip, st, a, I, ctx):
    lit = text(ip, st, a[1]).lit()
    if lit is None:
        for s, rest in rope_prefix(st, text(ip, st, a[0]), text(ip, st, a[1])):
            yield s, (ERROR if rest is None else OK)
        return
    for s, rest in ropes.starts_with(st, text(ip, st, a[0]), lit):
        yield s, (ERROR if rest is None else OK)


@trait("nom::traits::Compare::compare_no_case")
@sel
def nom_compare_nc(ip, I, s, k, k2):
    return do_compare_nc if tyk(ip, k2) == "str" else None


def do_compare_nc(ip, st, a, I, ctx):
    lit = text(ip, st, a[1]).lit()
    if lit is None or not lit.isascii() or "k" in lit.lower():
        raise Abandon("tag of unknown text")
    for s, rest in starts_nocase(st, text(ip, st, a[0]), lit):
        yield s, (ERROR if rest is None else OK)


@trait("nom::traits::InputLength::input_len")
@sel
def nom_len(ip, I, s, k, k2):
    return (lambda ip, st, a, I, ctx: st.rlen(text(ip, st, a[0]))) if tyk(ip, k2) == "str" else None


@path("nom::error::convert_error")
def convert_error(ip, st, a, I, ctx):
    """the message for a reader: some text"""
    return Rope((Sy(st.fresh("message", kind="s", cs=ALL, lo=0, hi=BIG)),))
