"""More of the standard library: string patterns, lazily driven iterator sources, formatting flags, integer and float
intrinsics, map entries. Everything here answers exactly on decided inputs and `unknown` (or the older, coarser model) otherwise."""
import math
import struct

import models as M
from absint import NEVER, inexact
from domain import (Agg, Alt, Bits, Ch, Chunk, Clo, FnV, It, MapV, Obj, OneOf, Rat, Ref, S, Seq, Sym, UNIT, V,
                    is_top, ishex, join, sstr, top)
from models import (has_top, MODELS, NI, NONE, asseq, boolv, char_seq, chunk_of, conc, eqv, garg, innermost, it_any, itm, keyof,
                    map_lookup, map_put, maybe_opt, model, mutate, ok, some, to_it, tystrip)

STR = "core::str::<impl str>::"
ITER = "core::iter::traits::iterator::Iterator::"


# ------------------------------------------------------------------ string patterns
def pattern(I, mem, x, c):
    """("text", Seq) | ("chars", [char values]) | ("pred", callable) of a pattern argument, None when it is neither"""
    t = None
    for a in reversed(c.get("a") or []):
        if isinstance(a, int):
            t = I.T[a]
            break
    if t is None:
        return None
    while t["k"] == "ref" and I.T[t["t"]]["k"] in ("ref", "adt", "closure"):
        t = I.T[t["t"]]
    if t["k"] == "char":
        v = I.full(x, mem)
        return ("chars", [v])
    if t["k"] in ("closure", "fndef", "fnptr", "fn") or type(x) in (Clo, FnV):
        return ("pred", I.alloc(mem, x) if type(x) is Clo else x)
    if tystrip(t) == "alloc::string::String":
        s = asseq(I, x, mem)
        return ("text", s) if type(s) is Seq and not s.chunked else None
    u = I.T[t["t"]] if t["k"] == "ref" else t
    if u["k"] == "str":
        s = asseq(I, x, mem)
        return ("text", s) if type(s) is Seq and not s.chunked else None
    if u["k"] in ("array", "slice") and I.T[u["t"]]["k"] == "char":
        s = I.full(x, mem)
        return ("chars", [I.full(y, mem) for y in s.e]) if type(s) is Seq and not s.chunked else None
    return None


def char_spans(I, s):
    """[(lo, hi, char value)] over the elements of s, None when the characters are not all known one by one"""
    if type(s) is not Seq or s.chunked:
        return None
    it = M.chars_it(I, None, s, s)
    if type(it) is not It or it.rest is not None:
        return None
    out = []
    i = 0
    for x in it.items:
        n = len(chr(x).encode()) if type(x) is int else 1
        out.append((i, i + n, x))
        i += n
    return out


def hit(I, mem, p, x):
    """does the character match: True / False / None"""
    if p[0] == "pred":
        y = I.invoke(p[1], [x], mem)
        return True if y == 1 else False if y == 0 else None
    es = [eqv(I, x, y, mem) for y in p[1]]
    return True if any(e is True for e in es) else False if all(e is False for e in es) else None


def spans(I, mem, s, p, back=False, limit=None):
    """element ranges of the non-overlapping matches, in the order met; None when undecided"""
    if p is None or type(s) is not Seq or s.chunked:
        return None
    out = []
    if p[0] == "text":
        m = len(p[1].e)
        if not m:
            return None
        i = len(s.e) - m if back else 0
        while (i >= 0 if back else i + m <= len(s.e)):
            if limit is not None and len(out) >= limit:
                break
            r = True
            for k in range(m):
                q = eqv(I, s.e[i + k], p[1].e[k], mem)
                if q is False:
                    r = False
                    break
                if q is None:
                    r = None
            if r is None:
                return None
            if r:
                out.append((i, i + m))
                i = i - m if back else i + m
            else:
                i = i - 1 if back else i + 1
        return out
    cs = char_spans(I, s)
    if cs is None:
        return None
    for lo, hi, x in reversed(cs) if back else cs:
        if limit is not None and len(out) >= limit:
            break
        h = hit(I, mem, p, x)
        if h is None:
            return None
        if h:
            out.append((lo, hi))
    return out


def sub(I, mem, a, s, lo, hi):
    if lo == 0 and hi == len(s.e) and type(a) is Ref:
        return a
    return I.alloc(mem, Seq(s.e[lo:hi]))


def refined(name, back=False):
    """a string model answered from the matches of its pattern; the older model takes what that does not decide"""
    def w(f):
        old = MODELS.get(STR + name) or MODELS.get("alloc::str::<impl str>::" + name)

        def m(I, mem, args, c):
            s = asseq(I, args[0], mem)
            pat = args[-1] if name not in ("replace", "replacen") else args[1]
            p = pattern(I, mem, pat, c)
            if type(s) is Seq and p is not None:
                r = f(I, mem, args, s, p)
                if r is not None:
                    return r
            if old is not None and (p is None or p[0] == "text" or p[0] == "chars" and len(p[1]) == 1):
                return old(I, mem, args, c)
            if old is not None and p is not None and "is" not in name:
                return undecided(I, mem, args, name)
            return top(I.deep(args[0], mem))
        MODELS[STR + name] = m
        MODELS["alloc::str::<impl str>::" + name] = m
        return f
    return w


def undecided(I, mem, args, name):
    d = top(I.deep(args[0], mem))
    if name in ("contains", "starts_with", "ends_with"):
        return d
    if name in ("find", "rfind"):
        return maybe_opt(d)
    if name in ("strip_prefix", "strip_suffix"):
        return maybe_opt(I.alloc(mem, chunk_of(d)))
    if name in ("split_once", "rsplit_once"):
        return maybe_opt(Agg(0, (I.alloc(mem, chunk_of(d)), I.alloc(mem, chunk_of(d)))))
    if "trim" in name:
        return I.alloc(mem, chunk_of(d))
    if "replace" in name:
        return chunk_of(d)
    return It((), I.alloc(mem, chunk_of(d)))


def pieces(I, mem, a, s, ms):
    """what lies between matches given in ascending order"""
    out = []
    at = 0
    for lo, hi in ms:
        out.append(sub(I, mem, a, s, at, lo))
        at = hi
    out.append(sub(I, mem, a, s, at, len(s.e)))
    return out


@refined("split")
def split(I, mem, args, s, p):
    ms = spans(I, mem, s, p)
    return None if ms is None else It(tuple(pieces(I, mem, args[0], s, ms)))


@refined("split_terminator")
def split_terminator(I, mem, args, s, p):
    ms = spans(I, mem, s, p)
    if ms is None:
        return None
    ps = pieces(I, mem, args[0], s, ms)
    if not len(s.e) - (ms[-1][1] if ms else 0):
        ps.pop()
    return It(tuple(ps))


@refined("split_inclusive")
def split_inclusive(I, mem, args, s, p):
    ms = spans(I, mem, s, p)
    if ms is None:
        return None
    at, out = 0, []
    for _, hi in ms:
        out.append(sub(I, mem, args[0], s, at, hi))
        at = hi
    if at < len(s.e):
        out.append(sub(I, mem, args[0], s, at, len(s.e)))
    return It(tuple(out))


@refined("rsplit")
def rsplit(I, mem, args, s, p):
    ms = spans(I, mem, s, p, True)
    return None if ms is None else It(tuple(reversed(pieces(I, mem, args[0], s, ms[::-1]))))


@refined("splitn")
def splitn(I, mem, args, s, p):
    n = args[1]
    if type(n) is not int:
        return None
    if n == 0:
        return It(())
    ms = spans(I, mem, s, p, False, n - 1)
    return None if ms is None else It(tuple(pieces(I, mem, args[0], s, ms)))


@refined("rsplitn")
def rsplitn(I, mem, args, s, p):
    n = args[1]
    if type(n) is not int:
        return None
    if n == 0:
        return It(())
    ms = spans(I, mem, s, p, True, n - 1)
    return None if ms is None else It(tuple(reversed(pieces(I, mem, args[0], s, ms[::-1]))))


@refined("split_once")
def split_once(I, mem, args, s, p):
    ms = spans(I, mem, s, p, False, 1)
    if ms is None:
        return None
    return some(Agg(0, tuple(pieces(I, mem, args[0], s, ms)))) if ms else NONE


@refined("rsplit_once")
def rsplit_once(I, mem, args, s, p):
    ms = spans(I, mem, s, p, True, 1)
    if ms is None:
        return None
    return some(Agg(0, tuple(pieces(I, mem, args[0], s, ms)))) if ms else NONE


@refined("find")
def find(I, mem, args, s, p):
    if p[0] == "text" and not p[1].e:
        return some(0)
    ms = spans(I, mem, s, p, False, 1)
    return None if ms is None else some(ms[0][0]) if ms else NONE


@refined("rfind")
def rfind(I, mem, args, s, p):
    ms = spans(I, mem, s, p, True, 1)
    return None if ms is None else some(ms[0][0]) if ms else NONE


@refined("matches")
def matches(I, mem, args, s, p):
    ms = spans(I, mem, s, p)
    return None if ms is None else It(tuple(sub(I, mem, args[0], s, a, b) for a, b in ms))


@refined("match_indices")
def match_indices(I, mem, args, s, p):
    ms = spans(I, mem, s, p)
    return None if ms is None else It(tuple(Agg(0, (a, sub(I, mem, args[0], s, a, b))) for a, b in ms))


@refined("rmatch_indices")
def rmatch_indices(I, mem, args, s, p):
    ms = spans(I, mem, s, p, True)
    return None if ms is None else It(tuple(Agg(0, (a, sub(I, mem, args[0], s, a, b))) for a, b in ms))


@refined("contains")
def contains(I, mem, args, s, p):
    if p[0] == "text":
        return None
    cs = char_spans(I, s)
    if cs is None:
        return None
    unk = False
    for _, _, x in cs:
        h = hit(I, mem, p, x)
        if h:
            return 1
        if h is None:
            unk = True
    if not unk:
        return 0
    if p[0] == "pred" or len(p[1]) > 1:
        return top(s)
    return None


def at_edge(I, mem, s, p, suffix):
    """(matches, characters eaten) at one end for a character pattern"""
    cs = char_spans(I, s)
    if cs is None:
        # one end may be known all the same
        e = s.e[-1] if suffix and s.e else s.e[0] if s.e else None
        if e is None or type(e) is Chunk or type(e) is int and e >= 128:
            return None
        cs = [(len(s.e) - 1, len(s.e), e)] if suffix else [(0, 1, e)]
    if not cs:
        return False, None
    lo, hi, x = cs[-1] if suffix else cs[0]
    h = hit(I, mem, p, x)
    return None if h is None else (h, (lo, hi))


def edge(suffix):
    def f(I, mem, args, s, p):
        if p[0] == "text":
            return None
        r = at_edge(I, mem, s, p, suffix)
        return None if r is None else int(r[0])
    return f


refined("starts_with")(edge(False))
refined("ends_with")(edge(True))


def strip(suffix):
    def f(I, mem, args, s, p):
        if p[0] == "text":
            return None
        r = at_edge(I, mem, s, p, suffix)
        if r is None:
            return None
        if not r[0]:
            return NONE
        lo, hi = r[1]
        return some(sub(I, mem, args[0], s, 0, lo) if suffix else sub(I, mem, args[0], s, hi, len(s.e)))
    return f


refined("strip_prefix")(strip(False))
refined("strip_suffix")(strip(True))


def trimmer(lead, trail):
    def f(I, mem, args, s, p):
        if p[0] == "text":
            n = len(p[1].e)
            lo, hi = 0, len(s.e)
            if not n or s.chunked:
                return None
            while lead and hi - lo >= n:
                q = eqv(I, Seq(s.e[lo:lo + n]), p[1], mem)
                if q is None:
                    return None
                if not q:
                    break
                lo += n
            while trail and hi - lo >= n:
                q = eqv(I, Seq(s.e[hi - n:hi]), p[1], mem)
                if q is None:
                    return None
                if not q:
                    break
                hi -= n
            return sub(I, mem, args[0], s, lo, hi)
        cs = char_spans(I, s)
        if cs is None:
            return None
        while lead and cs:
            h = hit(I, mem, p, cs[0][2])
            if h is None:
                return None
            if not h:
                break
            cs = cs[1:]
        while trail and cs:
            h = hit(I, mem, p, cs[-1][2])
            if h is None:
                return None
            if not h:
                break
            cs = cs[:-1]
        return sub(I, mem, args[0], s, cs[0][0], cs[-1][1]) if cs else I.alloc(mem, Seq(()))
    return f


refined("trim_start_matches")(trimmer(True, False))
refined("trim_end_matches")(trimmer(False, True))
refined("trim_matches")(trimmer(True, True))
refined("trim_left_matches")(trimmer(True, False))
refined("trim_right_matches")(trimmer(False, True))


@refined("replace")
def replace(I, mem, args, s, p):
    b = asseq(I, args[2], mem)
    ms = spans(I, mem, s, p)
    if ms is None or type(b) is not Seq:
        return None
    return interleave(s, ms, b)


@refined("replacen")
def replacen(I, mem, args, s, p):
    b = asseq(I, args[2], mem)
    if type(args[3]) is not int:
        return None
    ms = spans(I, mem, s, p, False, args[3])
    if ms is None or type(b) is not Seq:
        return None
    return interleave(s, ms, b)


def interleave(s, ms, b):
    out, at = (), 0
    for lo, hi in ms:
        out += s.e[at:lo] + b.e
        at = hi
    return Seq(out + s.e[at:])


def blank(x, ascii_only=False):
    if type(x) is int:
        return (x in (9, 10, 12, 13, 32)) if ascii_only else chr(x) in M.WS
    return False if type(x) is Ch or ishex(x) else None


@model(STR + "split_whitespace", STR + "split_ascii_whitespace")
def split_ws(I, mem, args, c):
    s = asseq(I, args[0], mem)
    cs = char_spans(I, s)
    asc = "ascii" in c["p"]
    if cs is None or any(blank(x, asc) is None for _, _, x in cs):
        return It((), I.alloc(mem, chunk_of(I.deep(args[0], mem))))
    out, start = [], None
    for lo, hi, x in cs:
        if blank(x, asc):
            if start is not None:
                out.append(sub(I, mem, args[0], s, start, lo))
            start = None
        elif start is None:
            start = lo
    if start is not None:
        out.append(sub(I, mem, args[0], s, start, len(s.e)))
    return It(tuple(out))


@model(STR + "lines")
def lines(I, mem, args, c):
    s = asseq(I, args[0], mem)
    if type(s) is not Seq or s.chunked or any(eqv(I, x, 10, mem) is None for x in s.e):
        return It((), I.alloc(mem, chunk_of(I.deep(args[0], mem))))
    out, at = [], 0
    for i, x in enumerate(s.e):
        if eqv(I, x, 10, mem):
            e = i
            if e > at and eqv(I, s.e[e - 1], 13, mem):
                e -= 1
            out.append(sub(I, mem, args[0], s, at, e))
            at = i + 1
    if at < len(s.e):
        out.append(sub(I, mem, args[0], s, at, len(s.e)))
    return It(tuple(out))


def cased(I, s, up):
    """text with the case of its ASCII letters changed, None when undecided"""
    if type(s) is not Seq or s.chunked:
        return None
    out = []
    for x in s.e:
        if type(x) is int:
            out.append(x - 32 if up and 97 <= x <= 122 else x + 32 if not up and 65 <= x <= 90 else x)
        else:
            return None
    return Seq(tuple(out))


@model("core::slice::ascii::<impl [u8]>::to_ascii_lowercase", "core::slice::ascii::<impl [u8]>::to_ascii_uppercase",
       "alloc::slice::<impl [u8]>::to_ascii_lowercase", "alloc::slice::<impl [u8]>::to_ascii_uppercase")
def slice_cased(I, mem, args, c):
    r = cased(I, asseq(I, args[0], mem), "upper" in c["p"])
    return r if r is not None else chunk_of(I.deep(args[0], mem))


@model(STR + "to_uppercase", STR + "to_lowercase", "alloc::str::<impl str>::to_uppercase", "alloc::str::<impl str>::to_lowercase")
def str_cased(I, mem, args, c):
    t = M.sstr_of(I, args[0], mem)
    if t is not None and t.isascii():
        return S(t.upper() if "upper" in c["p"] else t.lower())
    return chunk_of(I.deep(args[0], mem))


@model("core::char::methods::<impl char>::to_uppercase", "core::char::methods::<impl char>::to_lowercase")
def char_cased(I, mem, args, c):
    x = I.full(args[0], mem)
    if type(x) is int and x < 128:
        return It((ord(chr(x).upper() if "upper" in c["p"] else chr(x).lower()),))
    return It((), top(x))


def upred(name, f):
    def m(I, mem, args, c):
        x = I.full(args[0], mem)
        if type(x) is int and x < 128:
            return int(f(chr(x)))
        if type(x) is Ch and name in ("is_whitespace", "is_control"):
            return 0
        return top(x)
    MODELS["core::char::methods::<impl char>::" + name] = m


upred("is_alphanumeric", str.isalnum)
upred("is_alphabetic", str.isalpha)
upred("is_numeric", str.isdigit)
upred("is_uppercase", str.isupper)
upred("is_lowercase", str.islower)
upred("is_whitespace", lambda x: x in M.WS)
upred("is_control", lambda x: ord(x) < 32 or ord(x) == 127)
M.charpred("is_ascii_graphic", lambda x: 33 <= x <= 126)
M.charpred("is_ascii_control", lambda x: x < 32 or x == 127)


# ------------------------------------------------------------------ iterators that consume through a reference
def lazily(name):
    """adapters are run at once here: one whose closure changes what it captured may run more often than it should"""
    f = MODELS[ITER + name]

    def m(I, mem, args, c):
        for x in args[1:]:
            x = I.full(x, mem)
            if type(x) is Clo and any(I.T[u]["k"] == "ref" and I.T[u].get("mut") for u in I.T[x.ty].get("ups") or []):
                I.note("effect in a lazy adapter")
        return f(I, mem, args, c)
    MODELS[ITER + name] = m


for _n in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while"):
    lazily(_n)


STOPS = {"any": 1, "all": 0, "position": 1, "find": 1}


def consuming(name):
    """any/all/find/... called on `&mut iterator` leave the rest of it behind"""
    f = MODELS[ITER + name]

    def m(I, mem, args, c):
        if type(args[0]) is not Ref:
            return f(I, mem, args, c)
        p = innermost(I, args[0], mem)
        it = I.load(p, mem)
        if type(it) is not It:
            return f(I, mem, args, c)
        inner = I.alloc(mem, args[1]) if type(args[1]) is Clo else args[1]
        args = [args[0], inner] + list(args[2:])
        log = []
        real = I.invoke

        def spy(g, a, mm):
            y = real(g, a, mm)
            if g is inner:
                log.append(y)
            return y
        I.invoke = spy
        try:
            r = f(I, mem, args, c)
        finally:
            del I.invoke
        n = len(log)
        if r is NEVER:
            return r
        certain = all(type(y) is int or type(y) is Agg for y in log)
        if it.rest is None and certain and n <= len(it.items):
            I.store(p, It(it.items[n:], it.rest), mem)
        elif it.rest is not None and certain and n <= len(it.items) and log and stops(name, log[-1]):
            I.store(p, It(it.items[n:], it.rest), mem)
        else:
            I.store(p, It((), it_any(it)), mem)
        return r
    MODELS[ITER + name] = m


def stops(name, y):
    if name in STOPS:
        return y == STOPS[name]
    return type(y) is Agg and y.v == 1


for _n in ("any", "all", "position", "find", "find_map"):
    consuming(_n)


def taking(name):
    """adapters taken over `&mut iterator`: what they consume is gone from it"""
    f = MODELS[ITER + name]

    def m(I, mem, args, c):
        t = garg(I, c)
        r = f(I, mem, args, c)
        if t["k"] == "ref" and type(args[0]) is Ref:
            p = innermost(I, args[0], mem)
            it = I.load(p, mem)
            if type(it) is It:
                if name == "take":
                    n = args[1]
                    I.store(p, It(it.items[n:], it.rest) if type(n) is int else It((), it_any(it)), mem)
                elif name == "take_while":
                    if type(r) is It and r.rest is None and it.rest is None or type(r) is It and r.rest is None and len(r.items) < len(it.items):
                        I.store(p, It(it.items[len(r.items) + 1:], it.rest), mem)
                    else:
                        I.store(p, It((), it_any(it)), mem)
                elif name == "zip":
                    o = to_it(I, mem, args[1])
                    k = len(o.items)
                    # the left side is asked first: one more element goes when the right side ends first
                    I.store(p, It(it.items[k + 1:], it.rest) if o.rest is None else It((), it_any(it)), mem)
                else:
                    I.store(p, It(()), mem)
        return r
    MODELS[ITER + name] = m


for _n in ("take", "take_while", "map", "filter", "filter_map", "flat_map", "collect", "for_each", "fold", "sum", "count", "last",
           "enumerate", "skip", "skip_while", "step_by", "chain", "copied", "cloned", "rev", "zip", "inspect", "flatten", "max", "min", "peekable"):
    if ITER + _n in MODELS:
        taking(_n)


def good_of(I, c):
    """variant that continues a try_ operation, by the type of its result"""
    for a in reversed(c.get("a") or []):
        if isinstance(a, int):
            p = tystrip(I.T[a])
            return 1 if p == "core::option::Option" else 0 if p in ("core::result::Result", "core::ops::control_flow::ControlFlow") else None
    return None


def through(I, mem, args, it, used, clean):
    if type(args[0]) is Ref:
        p = innermost(I, args[0], mem)
        if type(I.load(p, mem)) is It:
            I.store(p, It(it.items[used:], it.rest) if clean else It((), it_any(it)), mem)


@model(ITER + "try_fold", "core::iter::traits::double_ended::DoubleEndedIterator::try_rfold")
def try_fold(I, mem, args, c):
    t = garg(I, c)
    while t["k"] == "ref":
        t = I.T[t["t"]]
    if t["k"] == "adt" and t.get("local"):
        return NI
    it = to_it(I, mem, args[0], t)
    good = good_of(I, c)
    acc, f = args[1], args[2]
    f = I.alloc(mem, f) if type(f) is Clo else f
    if good is None:
        through(I, mem, args, it, 0, False)
        I.note("try_fold over an unknown carrier")
        return top(I.deep(acc, mem))
    r = None   # what was returned early on some path
    for k, x in enumerate(it.items):
        y = I.invoke(f, [acc, x], mem) if r is None else M.call_may(I, mem, f, [acc, x])
        if y is NEVER:
            return NEVER if r is None else r
        if type(y) is Agg:
            if y.v != good:
                through(I, mem, args, it, k + 1, r is None)
                return y if r is None else join(r, y)
            acc = y.f[0] if y.f else UNIT
        elif type(y) is Alt and good in y.a and set(y.a) <= {0, 1}:
            b = Alt({1 - good: y.a[1 - good]}) if 1 - good in y.a else None
            b = Agg(1 - good, y.a[1 - good]) if b is not None else None
            if b is not None:
                r = b if r is None else join(r, b)
            acc = y.a[good][0] if y.a[good] else UNIT
        else:
            through(I, mem, args, it, 0, False)
            return top(I.deep(y, mem))
    if it.rest is not None:
        through(I, mem, args, it, 0, False)
        M.call_may(I, mem, f, [acc, it.rest])
        return top(I.deep(acc, mem), I.deep(it.rest, mem))
    through(I, mem, args, it, len(it.items), r is None)
    e = Agg(good, (acc,))
    return e if r is None else join(r, e)


@model(ITER + "try_for_each")
def try_for_each(I, mem, args, c):
    f = args[1]
    g = I.alloc(mem, f) if type(f) is Clo else f
    it = to_it(I, mem, args[0], garg(I, c))
    good = good_of(I, c)
    if good is None:
        I.note("try_for_each over an unknown carrier")
        return top("try_for_each")
    r = None
    for k, x in enumerate(it.items):
        y = I.invoke(g, [x], mem) if r is None else M.call_may(I, mem, g, [x])
        if y is NEVER:
            return NEVER if r is None else r
        if type(y) is Agg:
            if y.v != good:
                through(I, mem, args, it, k + 1, r is None)
                return y if r is None else join(r, y)
        else:
            r = y if r is None else join(r, y)
    through(I, mem, args, it, len(it.items), it.rest is None and r is None)
    e = Agg(good, (UNIT,))
    if it.rest is not None:
        y = M.call_may(I, mem, g, [it.rest])
        if y is not NEVER:
            r = y if r is None else join(r, y)
    return e if r is None else join(r, e)


def drive(I, mem, step, limit=300):
    """items produced by step() until None; It with an unknown tail when that is undecided"""
    out = []
    while len(out) < limit:
        y = step()
        if y is NEVER:
            return NEVER
        if type(y) is Agg and y.v == 0:
            return It(tuple(out))
        if type(y) is Agg and y.v == 1:
            out.append(y.f[0])
            continue
        return It(tuple(out), y.a[1][0] if type(y) is Alt and y.a.get(1) else top(y))
    return It(tuple(out), top("more"))


@model("core::iter::sources::from_fn::from_fn")
def from_fn(I, mem, args, c):
    f = I.alloc(mem, args[0]) if type(args[0]) is Clo else args[0]
    return drive(I, mem, lambda: I.invoke(f, [], mem))


@model("core::iter::sources::successors::successors")
def successors(I, mem, args, c):
    f = I.alloc(mem, args[1]) if type(args[1]) is Clo else args[1]
    cur = [args[0]]

    def step():
        y = cur[0]
        if type(y) is Agg and y.v == 1:
            cur[0] = I.invoke(f, [I.alloc(mem, y.f[0])], mem)
            if cur[0] is NEVER:
                cur[0] = Agg(0, ())
        return y
    return drive(I, mem, step, 64)


@model("core::iter::sources::repeat_with::repeat_with")
def repeat_with(I, mem, args, c):
    return It((), top("repeat_with"))


@itm("map_while")
def i_map_while(I, mem, it, a, c):
    out = []
    f = I.alloc(mem, a[0]) if type(a[0]) is Clo else a[0]
    for x in it.items:
        y = I.invoke(f, [x], mem)
        if y is NEVER:
            return NEVER
        if type(y) is Agg and y.v == 0:
            return It(tuple(out))
        if type(y) is not Agg:
            return It(tuple(out), top(y))
        out.append(y.f[0])
    return It(tuple(out), None if it.rest is None else top(I.deep(it.rest, mem)))


@itm("scan")
def i_scan(I, mem, it, a, c):
    st = I.alloc(mem, a[0])
    f = I.alloc(mem, a[1]) if type(a[1]) is Clo else a[1]
    out = []
    for x in it.items:
        y = I.invoke(f, [st, x], mem)
        if y is NEVER:
            return NEVER
        if type(y) is Agg and y.v == 0:
            return It(tuple(out))
        if type(y) is not Agg:
            return It(tuple(out), top(y))
        out.append(y.f[0])
    return It(tuple(out), None if it.rest is None else top(I.deep(it.rest, mem)))


@itm("cycle")
def i_cycle(I, mem, it, a, c):
    if it.rest is None and it.items:
        n = max(1, 512 // len(it.items))
        return It(it.items * n, it_any(it))
    return It((), it_any(it)) if it.items or it.rest is not None else it


@itm("partition")
def i_partition(I, mem, it, a, c):
    z = it_any(it)
    f = I.alloc(mem, a[0]) if type(a[0]) is Clo else a[0]
    yes, no = [], []
    sure = it.rest is None
    for x in it.items:
        y = I.invoke(f, [I.alloc(mem, x)], mem)
        if y is NEVER:
            return NEVER
        if y == 1:
            yes.append(x)
        elif y == 0:
            no.append(x)
        else:
            sure = False
    if sure:
        dst = garg(I, c, 1)
        return Agg(0, (M.collect_into(I, mem, It(tuple(yes)), dst), M.collect_into(I, mem, It(tuple(no)), dst)))
    s = Seq((Chunk(top(I.deep(z, mem)).t, z),)) if z is not None else Seq(())
    return Agg(0, (s, s))


@itm("unzip")
def i_unzip(I, mem, it, a, c):
    if it.rest is None and all(type(x) is Agg and len(x.f) == 2 for x in it.items):
        d = [I.T[x] for x in c.get("a") or [] if isinstance(x, int)][-2:]
        if len(d) == 2:
            return Agg(0, tuple(M.collect_into(I, mem, It(tuple(x.f[k] for x in it.items)), d[k]) for k in (0, 1)))
    z = it_any(it)
    s = Seq((Chunk(top(I.deep(z, mem)).t),)) if z is not None else Seq(())
    return Agg(0, (s, s))


def ranked(name, biggest, keyed):
    @itm(name)
    def f(I, mem, it, a, c):
        z = it_any(it)
        if z is None:
            return NONE
        if it.rest is None:
            best = None
            sure = True
            g = I.alloc(mem, a[0]) if type(a[0]) is Clo else a[0]
            for x in it.items:
                if keyed:
                    k = I.full(I.invoke(g, [I.alloc(mem, x)], mem), mem)
                    if best is None:
                        best = (k, x)
                        if type(k) is not int:
                            sure = False
                        continue
                    if type(k) is not int or type(best[0]) is not int:
                        sure = False
                        break
                    if (k >= best[0]) if biggest else (k < best[0]):
                        best = (k, x)
                else:
                    if best is None:
                        best = (None, x)
                        continue
                    o = M.ordering(I, I.invoke(g, [I.alloc(mem, best[1]), I.alloc(mem, x)], mem))
                    if o is None:
                        sure = False
                        break
                    if (o <= 0) if biggest else (o > 0):
                        best = (None, x)
            if sure:
                return some(best[1])
            return some(top(I.deep(z, mem)))
        return maybe_opt(top(I.deep(z, mem)))


ranked("max_by_key", True, True)
ranked("min_by_key", False, True)
ranked("max_by", True, False)
ranked("min_by", False, False)


@itm("product")
def i_product(I, mem, it, a, c):
    if it.rest is None:
        acc = 1
        d = garg(I, c, 1)
        for x in it.items:
            x = I.full(x, mem)
            acc, of = I.binop("Mul", acc, x, d["ix"] if d["k"] in ("int", "uint") else M.tyidx(I, 64, False))
        return acc
    return top(I.deep(it_any(it), mem))


@itm("nth_back", "core::iter::traits::double_ended::DoubleEndedIterator::")
def i_nth_back(I, mem, it, a, c):
    if it.rest is None and type(a[0]) is int:
        n = a[0]
        return some(it.items[-1 - n]) if n < len(it.items) else NONE
    return maybe_opt(it_any(it)) if it_any(it) is not None else NONE


def cmp_items(name, f):
    @itm(name)
    def m(I, mem, it, a, c):
        o = to_it(I, mem, a[0])
        if it.rest is None and o.rest is None:
            x, y = Seq(it.items), Seq(o.items)
            if name == "ne":
                return boolv(I, "Ne", x, y, mem)
        return top("cmp")


cmp_items("ne", None)


def peeked(I, mem, args):
    p = innermost(I, args[0], mem)
    it = I.load(p, mem)
    return (p, it) if type(it) is It else (p, None)


@model("core::iter::adapters::peekable::Peekable::next_if", "core::iter::adapters::peekable::Peekable::next_if_eq")
def next_if(I, mem, args, c):
    p, it = peeked(I, mem, args)
    if it is None:
        return maybe_opt(top("next_if"))
    if not it.items and it.rest is None:
        return NONE
    if it.items:
        x = it.items[0]
        y = I.invoke(args[1], [I.alloc(mem, x)], mem) if c["p"].endswith("next_if") else eqv(I, x, args[1], mem)
        if y is NEVER:
            return NEVER
        if y in (1, True) and y is not None:
            I.store(p, It(it.items[1:], it.rest), mem)
            return some(x)
        if y in (0, False) and y is not None:
            return NONE
    I.store(p, It((), it_any(it)), mem)
    return maybe_opt(it_any(it))


# ------------------------------------------------------------------ slices and vectors
@model("core::slice::<impl [T]>::split")
def slice_split(I, mem, args, c):
    r = innermost(I, args[0], mem)
    s = I.load(r, mem)
    f = I.alloc(mem, args[1]) if type(args[1]) is Clo else args[1]
    if type(s) is Seq and not s.chunked:
        at, out = 0, []
        for i in range(len(s.e)):
            y = I.invoke(f, [Ref(r.b, I.addidx(r.p, i))], mem)
            if y is NEVER:
                return NEVER
            if y == 1:
                out.append(Ref(r.b, I.addrange(r.p, at, i)))
                at = i + 1
            elif y != 0:
                out = None
                break
        if out is not None:
            out.append(Ref(r.b, I.addrange(r.p, at, len(s.e))))
            return It(tuple(out))
    return It((), I.alloc(mem, chunk_of(I.deep(s, mem))))


@model("core::slice::<impl [T]>::binary_search")
def binary_search(I, mem, args, c):
    s = asseq(I, args[0], mem)
    x = I.full(args[1], mem)
    if type(s) is Seq and not s.chunked and type(x) is int:
        es = [I.full(y, mem) for y in s.e]
        if all(type(y) is int for y in es) and all(a < b for a, b in zip(es, es[1:])):
            for i, y in enumerate(es):
                if y == x:
                    return ok(i)
                if y > x:
                    return Agg(1, (i,))
            return Agg(1, (len(es),))
    return Alt({0: (top("index"),), 1: (top("index"),)})


@model("alloc::vec::Vec::resize_with")
def resize_with(I, mem, args, c):
    s = asseq(I, args[0], mem)
    n = args[1]
    f = I.alloc(mem, args[2]) if type(args[2]) is Clo else args[2]
    if type(s) is Seq and not s.chunked and type(n) is int and n < 100000:
        e = list(s.e[:n])
        while len(e) < n:
            y = I.invoke(f, [], mem)
            if y is NEVER:
                return NEVER
            e.append(y)
        mutate(I, mem, args[0], lambda _: Seq(tuple(e)))
        return UNIT
    mutate(I, mem, args[0], lambda z: chunk_of(z))
    return UNIT


def bounds(I, mem, r, n, t):
    """lo, hi of a concrete range value of type t over n elements"""
    r = I.full(r, mem)
    s = t.get("s", "")
    if "RangeFull" in s:
        return 0, n
    if type(r) is not Agg or not all(type(x) is int for x in r.f[:2]):
        return None
    if "RangeToInclusive" in s:
        return 0, r.f[0] + 1
    if "RangeTo" in s:
        return 0, r.f[0]
    if "RangeFrom" in s:
        return r.f[0], n
    if "RangeInclusive" in s:
        return r.f[0], r.f[1] + 1
    if "Range<" in s:
        return r.f[0], r.f[1]
    return None


@model("alloc::vec::Vec::splice", "alloc::string::String::replace_range")
def splice(I, mem, args, c):
    s = asseq(I, args[0], mem)
    txt = "String" in c["p"]
    n = asseq(I, args[2], mem) if txt else None
    if not txt:
        it = to_it(I, mem, args[2])
        n = Seq(it.items) if it.rest is None else None
    t = next((I.T[a] for a in c.get("a") or [] if isinstance(a, int) and "ops::range" in I.T[a]["s"]), {"s": ""})
    b = bounds(I, mem, args[1], len(s.e), t) if type(s) is Seq and not s.chunked else None
    if b is None or type(n) is not Seq:
        I.note(c["p"])
        mutate(I, mem, args[0], lambda z: chunk_of(z))
        return UNIT if txt else It((), top("spliced"))
    lo, hi = b
    if lo > hi or hi > len(s.e) or txt and not (M.is_boundary(s, lo) and M.is_boundary(s, hi)):
        return I.panic("range out of bounds", mem)
    gone = s.e[lo:hi]
    mutate(I, mem, args[0], lambda z: Seq(s.e[:lo] + n.e + s.e[hi:]))
    return UNIT if txt else It(gone)


def rotated(I, mem, args, c):
    n = args[1]
    s = asseq(I, args[0], mem)
    if type(s) is Seq and not s.chunked and type(n) is int:
        if n > len(s.e):
            return I.panic("rotation beyond the slice", mem)
        k = n if c["p"].endswith("rotate_left") else len(s.e) - n
        r = innermost(I, args[0], mem)
        I.store(r, Seq(s.e[k:] + s.e[:k]), mem)
        return UNIT
    I.note(c["p"])
    mutate(I, mem, args[0], lambda z: chunk_of(z))
    return UNIT


MODELS["core::slice::<impl [T]>::rotate_left"] = rotated
MODELS["core::slice::<impl [T]>::rotate_right"] = rotated


@model("core::slice::<impl [T]>::is_sorted")
def is_sorted(I, mem, args, c):
    s = asseq(I, args[0], mem)
    if type(s) is Seq and not s.chunked:
        es = [I.full(y, mem) for y in s.e]
        if all(type(y) is int for y in es):
            return int(all(a <= b for a, b in zip(es, es[1:])))
    return top(I.deep(args[0], mem))


def ends(first):
    def f(I, mem, args, c):
        k = next((a for a in reversed(c.get("a") or []) if not isinstance(a, int) or True), None)
        r = innermost(I, args[0], mem)
        s = I.load(r, mem)
        n = None
        for a in c.get("a") or []:
            if isinstance(a, dict) and "c" in a:
                n = a["c"]
            elif isinstance(a, str) and a.split("_")[0].isdigit():
                n = int(a.split("_")[0])
        if type(s) is Seq and not s.chunked and n is not None:
            if n > len(s.e):
                return NONE
            return some(Ref(r.b, I.addrange(r.p, 0, n) if first else I.addrange(r.p, len(s.e) - n, len(s.e))))
        return maybe_opt(I.alloc(mem, chunk_of(I.deep(s, mem))))
    return f


MODELS["core::slice::<impl [T]>::first_chunk"] = ends(True)
MODELS["core::slice::<impl [T]>::last_chunk"] = ends(False)


# ------------------------------------------------------------------ integers and floats
def width_of(I, c):
    t = garg(I, c)
    return t.get("bits") if t["k"] in ("int", "uint") else None


# bit permutations, least significant bit first
PERM = {
    "bswap": lambda b, n: tuple(x for i in reversed(range(0, n, 8)) for x in b[i:i + 8]),
    "bitreverse": lambda b, n: b[::-1],
    "rotate_left": lambda b, n, k: b[n - k % n:] + b[:n - k % n],
    "rotate_right": lambda b, n, k: b[k % n:] + b[:k % n],
}


def intrinsic(name):
    def w(f):
        def m(I, mem, args, c):
            n = width_of(I, c)
            xs = [I.full(a, mem) for a in args]
            if n and all(type(x) is int for x in xs):
                signed = garg(I, c)["k"] == "int"
                y = f(n, signed, *[x & ((1 << n) - 1) if name not in ("saturating_sub", "saturating_add") else x for x in xs])
                if name not in ("ctpop", "ctlz", "cttz", "ctlz_nonzero", "cttz_nonzero") and signed and y >> (n - 1) & 1 and y > 0:
                    y -= 1 << n
                return y
            if n and name in PERM and all(type(k) is int for k in xs[1:]):
                b = M.tobits(xs[0], n)
                if b is not None and type(xs[0]) is Bits:
                    return M.mkbits(PERM[name](b, n, *xs[1:]))
            I.note("core::intrinsics::" + name)
            return top(*xs)
        MODELS["core::intrinsics::" + name] = m
        return f
    return w


intrinsic("ctpop")(lambda n, s, x: bin(x).count("1"))
for _q in ("ctlz", "ctlz_nonzero"):
    intrinsic(_q)(lambda n, s, x: n - x.bit_length())
for _q in ("cttz", "cttz_nonzero"):
    intrinsic(_q)(lambda n, s, x: (x & -x).bit_length() - 1 if x else n)
intrinsic("bswap")(lambda n, s, x: int.from_bytes(x.to_bytes(n // 8, "big"), "little"))
intrinsic("bitreverse")(lambda n, s, x: int(bin(x)[2:].zfill(n)[::-1], 2))
intrinsic("rotate_left")(lambda n, s, x, k: (x << (k % n) | x >> (n - k % n)) & ((1 << n) - 1))
intrinsic("rotate_right")(lambda n, s, x, k: (x >> (k % n) | x << (n - k % n)) & ((1 << n) - 1))


def limits(n, s):
    return (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)


intrinsic("saturating_sub")(lambda n, s, x, y: max(limits(n, s)[0], min(limits(n, s)[1], x - y)))
intrinsic("saturating_add")(lambda n, s, x, y: max(limits(n, s)[0], min(limits(n, s)[1], x + y)))


def floats(name, f):
    def m(I, mem, args, c):
        x = I.full(args[0], mem)
        if type(x) is float:
            y = f(x)
            return struct.unpack("f", struct.pack("f", y))[0] if "f32" in c["p"] else y
        return top(x, "float")
    for w in ("f32", "f64"):
        for p in ("std::%s::<impl %s>::", "core::%s::<impl %s>::", "std::num::%s::<impl %s>::", "core::num::%s::<impl %s>::"):
            MODELS.setdefault(p % (w, w) + name, m)


def whole(f):
    return lambda x: x if math.isnan(x) or math.isinf(x) else math.copysign(float(f(x)), x) if f(x) == 0 else float(f(x))


floats("floor", whole(math.floor))
floats("ceil", whole(math.ceil))
floats("trunc", whole(math.trunc))
floats("round", whole(lambda x: math.trunc(x) if abs(x - math.trunc(x)) < 0.5 else math.trunc(x) + int(math.copysign(1, x))))
floats("fract", lambda x: x - math.trunc(x))
floats("abs", abs)
floats("sqrt", lambda x: math.sqrt(x) if x >= 0 else float("nan"))
floats("is_nan_", math.isnan)


@model("core::hint::select_unpredictable")
def select(I, mem, args, c):
    if args[0] == 1:
        return args[1]
    if args[0] == 0:
        return args[2]
    return join(args[1], args[2])


for _q in ("core::hint::assert_unchecked::precondition_check", "core::intrinsics::assert_inhabited"):
    MODELS[_q] = lambda I, mem, args, c: UNIT


_parse = MODELS[STR + "parse"]


@model(STR + "parse")
def parse(I, mem, args, c):
    t = next((g for g in (garg(I, c, i) for i in range(2)) if g["k"] != "?"), None)
    s = M.sstr_of(I, args[0], mem)
    if t is not None and tystrip(t) == "alloc::string::String":
        q = asseq(I, args[0], mem)
        return ok(q) if type(q) is Seq else ok(chunk_of(I.deep(args[0], mem)))
    if t is not None and t["k"] == "char" and s is not None:
        return ok(ord(s)) if len(s) == 1 else Agg(1, (S("parse char"),))
    if t is not None and t["k"] == "float" and s is not None:
        import re
        if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s):
            x = float(s)
            return ok(struct.unpack("f", struct.pack("f", x))[0] if t["s"] == "f32" else x)
        if re.fullmatch(r"[+-]?(inf|infinity|nan)", s.lower()):
            return ok(float(s))
        return Agg(1, (S("parse float"),))
    return _parse(I, mem, args, c)


# ------------------------------------------------------------------ map entries and order
@model(*[m + "entry" for m in M.MAPS], "serde_json::map::Map::entry")
def entry(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    k = keyof(I, args[1], mem)
    if type(m) is MapV and conc(k) and not m.open and all(conc(x) for x, _ in m.items):
        return Obj("entry", r, k, S(c["p"]))
    I.note(c["p"])
    I.store(r, top(I.deep(m, mem)), mem)
    return top(c["p"], I.deep(m, mem))


def vacant(I, mem, e):
    return map_lookup(I, I.load(e.f[0], mem), e.f[1]) is None


def fill(I, mem, e, v):
    m = map_put(I, I.load(e.f[0], mem), e.f[1], v)
    I.store(e.f[0], M.tidy(sstr(e.f[2]), m), mem)


def slot(e):
    return Ref(e.f[0].b, e.f[0].p + (("k", e.f[1]),))


ENTRIES = ("std::collections::hash::map::Entry::", "alloc::collections::btree::map::entry::Entry::", "indexmap::map::core::entry::Entry::",
           "indexmap::map::entry::Entry::", "serde_json::map::Entry::")


def on_entry(name):
    def w(f):
        def m(I, mem, args, c):
            e = args[0]
            if type(e) is not Obj or e.k != "entry":
                I.note(c["p"])
                return top(c["p"])
            return f(I, mem, e, args, c)
        for p in ENTRIES:
            MODELS[p + name] = m
        return f
    return w


@on_entry("or_insert")
def or_insert(I, mem, e, args, c):
    if vacant(I, mem, e):
        fill(I, mem, e, args[1])
    return slot(e)


@on_entry("or_insert_with")
def or_insert_with(I, mem, e, args, c):
    if vacant(I, mem, e):
        y = I.invoke(args[1], [], mem)
        if y is NEVER:
            return NEVER
        fill(I, mem, e, y)
    return slot(e)


@on_entry("and_modify")
def and_modify(I, mem, e, args, c):
    if not vacant(I, mem, e):
        if I.invoke(args[1], [slot(e)], mem) is NEVER:
            return NEVER
    return e


@on_entry("key")
def entry_key(I, mem, e, args, c):
    return I.const_ref(e.f[1])


IM = "indexmap::map::IndexMap::"


@model(IM + "get_index_of")
def get_index_of(I, mem, args, c):
    m = I.full(args[0], mem)
    k = keyof(I, args[1], mem)
    if type(m) is MapV and not m.open:
        es = [eqv(I, x, k, mem) for x, _ in m.items]
        if any(x is True for x in es):
            return some(es.index(True))
        if all(x is False for x in es):
            return NONE
    return maybe_opt(top("index"))


@model(IM + "get_index", IM + "first", IM + "last", "alloc::collections::btree::map::BTreeMap::first_key_value", "alloc::collections::btree::map::BTreeMap::last_key_value")
def get_index(I, mem, args, c):
    it = to_it(I, mem, args[0])
    n = c["p"].rsplit("::", 1)[1]
    i = args[1] if n == "get_index" else 0 if n.startswith("first") else -1
    if it.rest is None and type(i) is int:
        if i < len(it.items) and it.items:
            return some(it.items[i])
        return NONE
    return maybe_opt(it_any(it)) if it_any(it) is not None else NONE


def exact_map(I, mem, a):
    """(place, map, position of a key or None when undecided) of an index map whose keys are all known to differ"""
    r = innermost(I, a, mem)
    m = I.load(r, mem)
    return r, (m if type(m) is MapV and not m.open else None)


def position(I, mem, m, k):
    """index of the key, -1 when it is certainly absent, None when undecided"""
    es = [eqv(I, x, k, mem) for x, _ in m.items]
    if any(x is True for x in es):
        return es.index(True)
    return -1 if all(x is False for x in es) else None


def map_unknown(I, mem, r, p):
    I.note(p)
    m = I.load(r, mem)
    I.store(r, top(I.deep(m, mem)), mem)
    return top(I.deep(m, mem))


@model(IM + "insert_full", IM + "shift_insert")
def insert_at(I, mem, args, c):
    n = c["p"].rsplit("::", 1)[1]
    r, m = exact_map(I, mem, args[0])
    at, kv, v = (None, args[1], args[2]) if n == "insert_full" else args[1:4]
    k = keyof(I, kv, mem)
    i = position(I, mem, m, k) if m is not None else None
    if i is None or n != "insert_full" and type(at) is not int:
        return map_unknown(I, mem, r, c["p"])
    items = list(m.items)
    old = NONE if i < 0 else some(items[i][1])
    if n == "insert_full":
        j = len(items) if i < 0 else i
        items[j:j + 1] = [(k, v)]
    else:
        if at > len(items) or n == "shift_insert" and i >= 0 and at >= len(items):
            return I.panic("index out of bounds: the index is %d" % at, mem)
        if i >= 0:
            items.pop(i)
        items.insert(at, (k, v))
        j = at
    I.store(r, MapV(tuple(items)), mem)
    return old if n == "shift_insert" else Agg(0, (j, old))


@model(IM + "shift_remove_index", IM + "swap_remove_index", IM + "shift_remove_entry", IM + "swap_remove_entry", IM + "shift_remove_full", IM + "swap_remove_full", IM + "pop")
def remove_at(I, mem, args, c):
    n = c["p"].rsplit("::", 1)[1]
    r, m = exact_map(I, mem, args[0])
    if m is None:
        return map_unknown(I, mem, r, c["p"])
    i = len(m.items) - 1 if n == "pop" else args[1] if n.endswith("_index") else position(I, mem, m, keyof(I, args[1], mem))
    if type(i) is not int:
        return map_unknown(I, mem, r, c["p"])
    if not 0 <= i < len(m.items):
        return NONE
    items = list(m.items)
    k, v = items[i]
    if n.startswith("swap") and i < len(items) - 1:
        items[i] = items.pop()
    else:
        items.pop(i)
    I.store(r, MapV(tuple(items)), mem)
    return some(Agg(0, (i, k, v) if n.endswith("_full") else (k, v)))


@model(IM + "move_index", IM + "swap_indices", IM + "reverse", IM + "truncate")
def rearrange(I, mem, args, c):
    n = c["p"].rsplit("::", 1)[1]
    r, m = exact_map(I, mem, args[0])
    if m is None or any(type(x) is not int for x in args[1:]):
        map_unknown(I, mem, r, c["p"])
        return UNIT
    items = list(m.items)
    if n in ("move_index", "swap_indices"):
        a, b = args[1:3]
        if max(a, b) >= len(items):
            return I.panic("index out of bounds: the index is %d" % max(a, b), mem)
        if n == "move_index":
            items.insert(b, items.pop(a))
        else:
            items[a], items[b] = items[b], items[a]
    elif n == "reverse":
        items.reverse()
    else:
        items = items[:args[1]]
    I.store(r, MapV(tuple(items)), mem)
    return UNIT


@model(IM + "get_index_mut", IM + "get_full")
def get_nth(I, mem, args, c):
    n = c["p"].rsplit("::", 1)[1]
    r, m = exact_map(I, mem, args[0])
    i = None if m is None else args[1] if n == "get_index_mut" else position(I, mem, m, keyof(I, args[1], mem))
    if type(i) is not int:
        I.note(c["p"])
        return maybe_opt(top("entry"))
    if not 0 <= i < len(m.items):
        return NONE
    k = m.items[i][0]
    f = (I.const_ref(k), Ref(r.b, r.p + (("k", k),)))
    return some(Agg(0, f if n == "get_index_mut" else (i,) + f))


@model(IM + "sort_keys", IM + "sort_unstable_keys")
def sort_keys(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    if type(m) is MapV and not m.open and all(conc(k) for k, _ in m.items):
        I.store(r, M.tidy("BTree", m), mem)
        return UNIT
    I.note(c["p"])
    I.store(r, top(I.deep(m, mem)), mem)
    return UNIT


def unordered(n):
    """hash collections are visited in an arbitrary order: here, the opposite of the order of insertion"""
    f = MODELS[n]

    def m(I, mem, args, c):
        y = f(I, mem, args, c)
        if type(y) is It and y.rest is None and len(y.items) > 1:
            return It(y.items[::-1])
        return y
    MODELS[n] = m


for _h in ("std::collections::hash::map::HashMap::", "std::collections::hash::set::HashSet::"):
    for _n in ("iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "into_iter"):
        if _h + _n in MODELS:
            unordered(_h + _n)


_into = MODELS["core::iter::traits::collect::IntoIterator::into_iter"]


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(I, mem, args, c):
    y = _into(I, mem, args, c)
    t = garg(I, c)
    while t["k"] == "ref":
        t = I.T[t["t"]]
    if t["k"] == "adt" and tystrip(t).startswith("std::collections::hash::") and type(y) is It and y.rest is None and len(y.items) > 1 and type(I.full(args[0], mem)) is MapV:
        return It(y.items[::-1])
    return y


SETS = M.SETS


def set_op(name, keep, both=False):
    def f(I, mem, args, c):
        a, b = I.full(args[0], mem), I.full(args[1], mem)
        if type(a) is MapV and type(b) is MapV and not a.open and not b.open:
            out = []
            for k, _ in a.items:
                es = [eqv(I, k, q, mem) for q, _ in b.items]
                h = True if any(e is True for e in es) else False if all(e is False for e in es) else None
                if h is None:
                    out = None
                    break
                if keep(h):
                    out.append(k)
            if out is not None and both:
                for k, _ in b.items:
                    es = [eqv(I, k, q, mem) for q, _ in a.items]
                    if any(e is True for e in es):
                        continue
                    if not all(e is False for e in es):
                        out = None
                        break
                    out.append(k)
            if out is not None:
                m = M.tidy(c["p"], MapV(tuple((k, M.INSET) for k in out)))
                return It(tuple(I.const_ref(k) for k, _ in m.items))
        return It((), top(I.deep(a, mem), I.deep(b, mem)))
    for s in SETS:
        MODELS[s + name] = f


set_op("difference", lambda h: not h)
set_op("intersection", lambda h: h)
set_op("union", lambda h: True, True)


def subset(name, flip, disjoint=False):
    def f(I, mem, args, c):
        a, b = I.full(args[0], mem), I.full(args[1], mem)
        if flip:
            a, b = b, a
        if type(a) is MapV and type(b) is MapV and not a.open and not b.open:
            for k, _ in a.items:
                es = [eqv(I, k, q, mem) for q, _ in b.items]
                h = True if any(e is True for e in es) else False if all(e is False for e in es) else None
                if h is None:
                    return top("subset")
                if h is disjoint:
                    return 0
            return 1
        return top(I.deep(a, mem), I.deep(b, mem))
    for s in SETS:
        MODELS[s + name] = f


subset("is_subset", False)
subset("is_superset", True)
subset("is_disjoint", False, True)


# ------------------------------------------------------------------ errors
@model("anyhow::error::<impl anyhow::Error>::msg", "anyhow::Error::msg", "anyhow::__private::format_err")
def any_msg(I, mem, args, c):
    a = args[0]
    if type(a) is Agg and a.v == 78:
        return Obj("anyhow", a.f[0])
    s = asseq(I, a, mem)
    return Obj("anyhow", s if type(s) is Seq else I.deep(a, mem))


@model("anyhow::__private::not")
def any_not(I, mem, args, c):
    x = I.full(args[0], mem)
    return 1 - x if type(x) is int else I.unop("Not", x, None) if hasattr(I, "unop_") else top(x)


@model("anyhow::Context::context", "anyhow::Context::with_context")
def context(I, mem, args, c):
    x = args[0]
    t = garg(I, c)
    opt = "option::Option" in tystrip(t)
    if type(x) is Agg:
        if opt:
            return ok(x.f[0]) if x.v == 1 else Agg(1, (Obj("anyhow", chunk_of("context")),))
        return x if x.v == 0 else Agg(1, (Obj("anyhow", chunk_of("context")),))
    if type(x) is Alt and set(x.a) <= {0, 1}:
        g = x.a.get(1 if opt else 0)
        out = {}
        if g is not None:
            out[0] = g
        if x.a.get(0 if opt else 1) is not None:
            out[1] = (Obj("anyhow", chunk_of("context")),)
        return Alt(out)
    I.note(c["p"])
    return top(c["p"], I.deep(x, mem))


# ------------------------------------------------------------------ shared cells
@model("core::cell::Cell::new", "core::cell::RefCell::new", "core::cell::OnceCell::new_")
def cell_new(I, mem, args, c):
    return Obj("cell", args[0])


def unsup(p):
    def f(I, mem, args, c):
        I.note(p)
        return top(p, *[I.deep(a, mem) for a in args])
    return f


for _n in ("core::cell::Cell::get", "core::cell::Cell::set", "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut"):
    MODELS.setdefault(_n, unsup(_n))
del MODELS["core::cell::Cell::new"], MODELS["core::cell::RefCell::new"]


def _fi(*names):
    return ["core::num::<impl %s%d>::%s" % (k, w, n) for n in names for k in "ui" for w in (8, 16, 32, 64, 128)] + ["core::num::<impl %ssize>::%s" % (k, n) for n in names for k in "ui"]


@model(*_fi("ilog2", "ilog10", "checked_ilog2", "checked_ilog10", "isqrt", "ilog", "checked_ilog"))
def ilog(I, mem, args, c):
    xs = [I.full(a, mem) for a in args]
    n = c["p"].rsplit("::", 1)[1]
    if not all(type(x) is int for x in xs):
        return NI
    x = xs[0]
    chk = n.startswith("checked_")
    n = n.replace("checked_", "")
    if n == "isqrt":
        return math.isqrt(x) if x >= 0 else I.panic("square root of a negative number", mem)
    b = {"ilog2": 2, "ilog10": 10}.get(n) or xs[1]
    if x <= 0 or b < 2:
        return NONE if chk else I.panic("logarithm out of domain", mem)
    k = 0
    while b ** (k + 1) <= x:
        k += 1
    return some(k) if chk else k


@model("core::num::nonzero::NonZero::new")
def nonzero_new(I, mem, args, c):
    x = I.full(args[0], mem)
    if type(x) is int:
        return some(x) if x else NONE
    return maybe_opt(x)


@model("core::num::nonzero::NonZero::get", "core::num::nonzero::NonZero::new_unchecked")
def nonzero_get(I, mem, args, c):
    return I.full(args[0], mem)


_from = MODELS.get("core::convert::From::from")


def from_items(I, mem, args, c):
    p = tystrip(garg(I, c))
    x = args[0]
    if any(p + "::" == q for q in M.MAPS + M.SETS) and type(x) is Seq and not x.chunked:
        return M.collect_into(I, mem, It(x.e), garg(I, c))
    return _from(I, mem, args, c) if _from is not None else NI


MODELS["core::convert::From::from"] = from_items
_cinto = MODELS.get("core::convert::Into::into")


def into_items(I, mem, args, c):
    p = tystrip(garg(I, c, 1))
    x = args[0]
    if any(p + "::" == q for q in M.MAPS + M.SETS) and type(x) is Seq and not x.chunked:
        return M.collect_into(I, mem, It(x.e), garg(I, c, 1))
    return _cinto(I, mem, args, c) if _cinto is not None else NI


MODELS["core::convert::Into::into"] = into_items


@model("core::array::from_fn")
def arr_from_fn(I, mem, args, c):
    n = next((a["c"] if isinstance(a, dict) else int(a) for a in c.get("a") or [] if isinstance(a, dict) and isinstance(a.get("c"), int) or isinstance(a, str) and a.isdigit()), None)
    if n is None or n > 4096:
        return NI
    f = I.alloc(mem, args[0]) if type(args[0]) is Clo else args[0]
    out = []
    for i in range(n):
        y = I.invoke(f, [i], mem)
        if y is NEVER:
            return NEVER
        out.append(y)
    return Seq(tuple(out))


@model("core::array::<impl [T; N]>::map")
def arr_map(I, mem, args, c):
    s = I.full(args[0], mem)
    f = I.alloc(mem, args[1]) if type(args[1]) is Clo else args[1]
    if type(s) is Seq and not s.chunked:
        out = []
        for x in s.e:
            y = I.invoke(f, [x], mem)
            if y is NEVER:
                return NEVER
            out.append(y)
        return Seq(tuple(out))
    return NI


@model("core::str::iter::Chars::as_str")
def chars_as_str(I, mem, args, c):
    it = I.full(args[0], mem)
    if type(it) is It and it.rest is None:
        return I.alloc(mem, M.collect_string(I, mem, it))
    return I.alloc(mem, chunk_of("as_str"))


@model("alloc::vec::into_iter::IntoIter::as_slice", "core::slice::iter::Iter::as_slice")
def iter_as_slice(I, mem, args, c):
    it = I.full(args[0], mem)
    if type(it) is It and it.rest is None:
        return I.alloc(mem, Seq(tuple(I.full(x, mem) if "slice::iter" in c["p"] else x for x in it.items)))
    return I.alloc(mem, chunk_of("as_slice"))


for _w in ("f32", "f64"):
    for _n, _g in (("max", max), ("min", min)):
        def _fm(I, mem, args, c, g=_g):
            a, b = I.full(args[0], mem), I.full(args[1], mem)
            if type(a) is float and type(b) is float:
                return b if a != a else a if b != b else g(a, b)
            return top(a, b, "float")
        for _p in ("core::%s::<impl %s>::", "core::num::%s::<impl %s>::", "std::%s::<impl %s>::"):
            MODELS.setdefault(_p % (_w, _w) + _n, _fm)


@model(*["num_rational::Ratio::" + z + y for z in ("", "<T>::") for y in ("is_integer", "to_integer", "ceil", "floor", "trunc", "recip")])
def ratio_ops(I, mem, args, c):
    x = I.full(args[0], mem)
    n = c["p"].rsplit("::", 1)[1]
    if type(x) is not Rat:
        I.note(c["p"])
        return top(c["p"], I.deep(x, mem))
    q = x.q
    if n == "is_integer":
        return int(q.denominator == 1)
    if n == "to_integer":
        return math.trunc(q)
    if n == "recip":
        return Rat(1 / q) if q else I.panic("division by zero", mem)
    from fractions import Fraction
    return Rat(Fraction({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc}[n](q)))


# ------------------------------------------------------------------ serde_json::Value accessors
def _bind_json():
    import models_json as J
    for n, k in (("is_null", J.J_NULL), ("is_boolean", J.J_BOOL), ("is_number", J.J_NUM), ("is_string", J.J_STR), ("is_array", J.J_ARR), ("is_object", J.J_OBJ)):
        def f(I, mem, args, c, k=k):
            v = I.deep(args[0], mem)
            return int(v.v == k) if type(v) is Agg else top(v)
        MODELS["serde_json::value::Value::" + n] = f
    for n, k in (("as_bool", J.J_BOOL), ("as_str", J.J_STR), ("as_array", J.J_ARR), ("as_object", J.J_OBJ)):
        def g(I, mem, args, c, k=k, n=n):
            v = I.deep(args[0], mem)
            if type(v) is not Agg:
                return maybe_opt(top(v))
            if v.v != k:
                return NONE
            return some(v.f[0] if n == "as_bool" else I.alloc(mem, v.f[0]))
        MODELS["serde_json::value::Value::" + n] = g


_bind_json()


@model("core::str::<impl str>::eq_ignore_ascii_case", "core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case", "alloc::string::String::eq_ignore_ascii_case",
       "core::char::methods::<impl char>::eq_ignore_ascii_case", "core::num::<impl u8>::eq_ignore_ascii_case")
def eq_nocase(I, mem, args, c):
    def low(x):
        return x + 32 if type(x) is int and 65 <= x <= 90 else x
    a, b = I.full(args[0], mem), I.full(args[1], mem)
    if type(a) is int and type(b) is int:
        return int(low(a) == low(b))
    if type(a) is Seq and type(b) is Seq:
        if all(type(x) is int for x in a.e + b.e):
            return int(tuple(map(low, a.e)) == tuple(map(low, b.e)))
        if len(a.e) == len(b.e) and not any(type(x) is Chunk for x in a.e + b.e):
            if any(type(x) is int and type(y) is int and low(x) != low(y) for x, y in zip(a.e, b.e)):
                return 0
        if a.e == b.e:
            return 1
    return top(a)
