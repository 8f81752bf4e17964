"""Signing thresholds are exact: a numeric threshold is met by exactly that many distinct indices, a weighted one by index sets whose
weights reach one in every clause; every form of a threshold (integer, hexadecimal text, weight lists, JSON text, qualified text) means the
same and is given back unchanged; malformed thresholds are refused."""
import itertools
from fractions import Fraction as F
import lib
import prims
import vals
from domain import S, Seq, mkbits
from matterlib import opt
from pathlib_ import answer, each, errs, oks, same
from checks.p21 import hexes
from checks.p27 import be, code_for, num, WIDTH

RULE = "one obligation per (threshold, form, accessor or set of indices); numeric thresholds are unknown below their highest bit"
FLOOR = 900


def new(ctx, r, thold=None, limen=None, sith=None):
    W = ctx.W
    return W.method("Tholder", "new"), [opt(r.ref(thold) if thold is not None else None), opt(r.ref(limen) if limen is not None else None),
                                        opt(r.ref(sith) if sith is not None else None)]


def got(ctx, p, k, w, bad, x, m, want, wrapped=True):
    q = p.run
    o = q.call(ctx.W.method("Tholder", m), x)
    if not wrapped:
        if o.never:
            bad(k, "%s: %s() panics" % (w, m))
        elif o.v is None:
            ctx.unknown(k, w)
        else:
            same(ctx, p, k, w, bad, q.deep(o.v), want, m + "()")
        return
    if o.kind() == "ok":
        same(ctx, p, k, w, bad, q.deep(o.okv()), want, m + "()")
    elif o.kind() in ("err", "panic"):
        bad(k, "%s: %s() %s" % (w, m, "is refused" if o.kind() == "err" else "panics"))
    else:
        ctx.unknown(k, "%s: %s()" % (w, m))


# ---------------------------------------------------------------- numeric
def low(n, w):
    return mkbits(tuple(n.b[:w])) if hasattr(n, "b") else n


def numeric(ctx, form, k, n=None):
    """any number whose highest bit is k, or the number n"""
    W = ctx.W
    at = n
    if n is None:
        n = num(k, 64)
    code = code_for(k)
    text = Seq(prims.forms(code, be(num(k) if at is None else at, WIDTH[code]))[0].e)
    r = W.run()
    nd = max(1, (k + 4) // 4)
    bits = n.b if hasattr(n, "b") else tuple((n >> i) & 1 for i in range(64))
    bits = (tuple(bits) + (0,) * 64)[:64]
    hx = Seq(hexes(bits[:4 * nd], nd))
    val = vals.val(vals.I64(n) if type(n) is not int else n)
    a = {"sith": {"sith": val}, "thold": {"thold": val}, "hex": {"sith": vals.val(hx)}, "limen": {"limen": text}}[form]
    fi, args = new(ctx, r, **a)
    what = "a Tholder of any number with highest bit %d from its %s" % (k, form)
    key = "numeric/%s/%d" % (form, k)
    if at is not None:
        what, key = "a Tholder of %d from its %s" % (at, form), "number/%s/%d" % (form, at)
    if k >= 32:
        errs(ctx, key, r, fi, args, what)
        return

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        got(ctx, p, kk + "/thold", w, bad, x, "thold", val, False)
        got(ctx, p, kk + "/weighted", w, bad, x, "weighted", 0, False)
        got(ctx, p, kk + "/size", w, bad, x, "size", low(n, 32), False)
        got(ctx, p, kk + "/num", w, bad, x, "num", opt(low(n, 32)))
        got(ctx, p, kk + "/limen", w, bad, x, "limen", text)
        got(ctx, p, kk + "/sith", w, bad, x, "sith", vals.val(hx))
        if k >= 2:
            sat(ctx, p, kk, w, bad, x, (0, 1, 2), False)
            sat(ctx, p, kk, w, bad, x, (), False)
    oks(ctx, key, r, fi, args, what, judge)


def sat(ctx, p, kk, w, bad, x, idx, want, loose=False):
    q = p.run
    k = "%s/satisfy%r" % (kk, idx)
    o = q.call(ctx.W.method("Tholder", "satisfy"), x, q.ref(Seq(tuple(idx))))
    kd = o.kind()
    g = q.deep(o.okv()) if kd == "ok" else None
    if kd == "panic":
        bad(k, "%s: satisfy(%r) panics" % (w, list(idx)))
    elif kd == "err":
        (ctx.ok(k) if loose or not want else bad(k, "%s: satisfy(%r) is refused" % (w, list(idx))))
    elif type(g) is int:
        if bool(g) == want or (loose and not g):
            ctx.ok(k)
        else:
            bad(k, "%s: satisfy(%r) is %s, expected %s" % (w, list(idx), bool(g), want))
    else:
        ctx.unknown(k, "%s: satisfy(%r)" % (w, list(idx)))


def count(ctx, n, form):
    W = ctx.W
    r = W.run()
    text = prims.forms("M", be(n, 2))[0]
    a = {"sith": {"sith": vals.val(n)}, "hex": {"sith": vals.val("%x" % n)}, "limen": {"limen": text}, "thold": {"thold": vals.val(n)}}[form]
    fi, args = new(ctx, r, **a)
    more = [(n,) + tuple(range(n - 1)), tuple(range(n - 1)) + (n - 2,)] if n > 16 else []
    sets = more + [(), (0,), (0, 0), (5,), (0, 1), (1, 0, 1), (3, 3, 3), (0, 1, 2), (2, 1, 0), (7, 7, 1, 1, 0), tuple(range(n)), tuple(range(n)) * 2, tuple(range(n - 1)) * 2,
            tuple(reversed(range(n))), tuple(range(0, 2 * n, 2)), ((1 << 32) - 1,) + tuple(range(n - 1)), tuple(range(n + 1)), (4,) * n, (0, 65536, 0), (1, 257, 1), (65536, 0, 65536, 0), (0, 1 << 31, 0, 1 << 31), (9, 10, 9), (256, 0, 256)]

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        for s in sorted(set(sets)):
            sat(ctx, p, kk, w, bad, x, s, n > 0 and len(set(s)) >= n)
    oks(ctx, "count/%s/%d" % (form, n), r, fi, args, "a Tholder of %d from its %s" % (n, form), judge)


# ---------------------------------------------------------------- weighted
def fr(w):
    return F(w)


def txt(f):
    f = F(f)
    return str(f.numerator) if f.denominator == 1 else "%d/%d" % (f.numerator, f.denominator)


def bext(cl):
    return "a".join("c".join(txt(w).replace("/", "s") for w in c) for c in cl)


def limen(cl):
    t = bext(cl).encode()
    from checks.p29 import rawof
    raw, code = rawof(tuple(t))
    return prims.forms(code, raw)[0]


def met(cl, idx):
    held = set(idx)
    i = 0
    for c in cl:
        s = F(0)
        for w in c:
            if i in held:
                s += F(w)
            i += 1
        if s < 1:
            return False
    return True


def subsets(n, few=False):
    if few or n > 12:
        for k in range(n + 1):
            yield tuple(range(k))
        for k in range(1, n):
            yield tuple(range(k, n))
            yield (0,) + tuple(range(k, n))
        return
    for k in range(n + 1):
        yield from itertools.combinations(range(n), k)


def weighted(ctx, cl, form):
    W = ctx.W
    r = W.run(budget=40_000_000)
    lst = [list(c) for c in cl]
    if form == "limen":
        a = {"limen": limen(cl)}
    elif form == "thold":
        a = {"thold": vals.val(lst)}
    elif form == "flat":
        a = {"sith": vals.val(lst[0])}
    elif form == "nested":
        a = {"sith": vals.val(lst)}
    elif form == "json":
        a = {"sith": vals.val(bytes(vals.json(lst)).decode())}
    elif form == "flat-json":
        a = {"sith": vals.val(bytes(vals.json(lst[0])).decode())}
    fi, args = new(ctx, r, **a)
    n = sum(map(len, cl))
    reduced = all(w == txt(w) for c in cl for w in c)

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        got(ctx, p, kk + "/weighted", w, bad, x, "weighted", 1, False)
        got(ctx, p, kk + "/size", w, bad, x, "size", n, False)
        got(ctx, p, kk + "/num", w, bad, x, "num", opt(None))
        if reduced:
            got(ctx, p, kk + "/thold", w, bad, x, "thold", vals.val(lst), False)
            got(ctx, p, kk + "/sith", w, bad, x, "sith", vals.val(lst if len(lst) > 1 else lst[0]))
            got(ctx, p, kk + "/limen", w, bad, x, "limen", limen(cl))
            got(ctx, p, kk + "/json", w, bad, x, "to_json", vals.seq(lst if len(lst) > 1 else lst[0]))
        for s in subsets(n, n > 8 and len({w for c in cl for w in c}) == 1):
            sat(ctx, p, kk, w, bad, x, s, met(cl, s))
        full = tuple(range(n))
        for s in (tuple(reversed(full)), full + full, (0,) * n, (n - 1,) * (n + 1), full[1:] + full[:1], full[1:] * 2, (0, 0) + full[2:]):
            s = tuple(i for i in s if i >= 0)
            sat(ctx, p, kk, w, bad, x, s, met(cl, s))
        for s in ((n,), full + (n,), (n + 5,) + full, ((1 << 32) - 1,), (n, n + 1, n + 2, n + 3)):
            sat(ctx, p, kk, w, bad, x, s, met(cl, s), loose=True)
    oks(ctx, "weighted/%s/%s" % (form, bext_key(cl)), r, fi, args, "a Tholder of %s from its %s" % (lst, form), judge)


def bext_key(cl):
    return "|".join(",".join(c) for c in cl)


def refused(ctx, how, v):
    W = ctx.W
    r = W.run()
    a = {how: S(v) if how == "limen" and isinstance(v, str) else Seq(tuple(v)) if how == "limen" and isinstance(v, bytes) else v if how == "limen" else vals.val(v)}
    fi, args = new(ctx, r, **a)
    errs(ctx, "refused/%s/%s" % (how, v if not isinstance(v, Seq) else "".join(map(chr, v.e)) if all(type(x) is int for x in v.e) else len(v.e)), r, fi, args, "a Tholder from the %s %r" % (how, v if not isinstance(v, Seq) else "bytes"))


def nothing(ctx):
    r = ctx.W.run()
    fi, args = new(ctx, r)
    errs(ctx, "refused/nothing", r, fi, args, "a Tholder from nothing")


CLAUSES = [
    (("1",),), (("1/2", "1/2"),), (("1/2", "1/2", "1/4", "1/4"),), (("1/3", "1/3", "1/3"),), (("1/3", "2/3"),), (("1/2", "1/3", "1/6"),), (("0", "1"),), (("1", "0", "1/2"),),
    (("1/7",) * 7,), (("2/5", "3/5", "1/5"),), (("99/100", "1/100", "1/99"),), (("1/2", "1/2"), ("1",)), (("1",), ("1/2", "1/2")), (("1/2", "1/2"), ("1/3", "1/3", "1/3")),
    (("1/2", "1/2", "1/2"), ("1", "1")), (("1",), ("1",), ("1",)), (("1", "1/2"), ("1/2", "1/2"), ("1/4", "3/4")), (("2/4", "1/2"),), (("3/3",),), (("0/5", "2/2"), ("4/8", "2/4")),
    (("1/65537", "65536/65537"),), (("1/65537", "1/65539", "65536/65537"),), (("1/2147483647", "2147483646/2147483647"),), (("1/2147483647", "2147483645/2147483647", "1/2147483646", "1"),),
    (("1/10", "2/10", "3/10", "4/10"),),
]
BIG = [(("1/3", "1/3", "1/3"), ("1/2", "1/2"), ("1", "0")), (("1/5",) * 7,), (("1/8", "7/8"), ("1/9", "8/9"), ("1/2", "1/2", "1/2"))]
NUMBERS = [0xa, 0xf, 0x1f, 0xab, 0xff, 0x100, 0xabc, 0xfff, 0xabcd, 0xffff, 0x10000, 0xabcde, 0xbeefad, 0x1000000, 0x1234567, 0xfedcba9, 0x7fffffff, 0xabcdef98, 0xffffffff]


def check(ctx):
    ctx.pmap(numeric, [(f, k) for f in ("sith", "thold", "hex", "limen") for k in range(-1, 63) if k < 40 or k % 8 == 6 or ctx.thorough])
    ctx.pmap(numeric, [(f, m.bit_length() - 1, m) for f in ("sith", "thold", "hex", "limen") for m in NUMBERS])
    near = lib.around(ctx.W, ("src/core/tholder.rs",), lo=5, hi=300)
    ctx.pmap(count, [(n, f) for n in (0, 1, 2, 3, 4, 10, 12, 16) + tuple(m for m in near if m not in (10, 12, 16)) for f in ("sith", "thold", "hex", "limen")])
    for n in near:
        if n < (100 if ctx.thorough else 20):
            work_near = [(("1/%d" % max(2, n // 2),) * n,), (("1",),) * n] if n < 24 else [(("1/%d" % (n // 2),) * n,)]
            ctx.pmap(weighted, [(c, f) for c in work_near for f in ("nested", "limen")])
    cl = CLAUSES + (BIG if ctx.thorough else BIG[:1])
    work = []
    for c in cl:
        fs = ["nested", "json", "limen", "thold"] + (["flat", "flat-json"] if len(c) == 1 else [])
        if not all(w == txt(w) for x in c for w in x):
            fs.remove("limen")
        work += [(c, f) for f in fs]
    ctx.pmap(weighted, work)
    bad = [[], [[]], [[], ["1"]], [["1"], []], ["1/2"], ["1/3", "1/3"], ["1/2", "1/4"], [["1/2", "1/2"], ["1/2"]], [["1/2"], ["1/2", "1/2"]], ["3/2"], ["2/1"], ["2"], ["10"], ["01"], ["-1/2", "1", "1"],
           ["1/-2", "1"], ["-1/-2", "1"], ["1/0", "1"], ["0/0", "1"], ["1/2/3", "1"], ["/2", "1"], ["1/", "1"], ["/", "1"], ["a/2", "1"], ["1/b", "1"], ["", "1"], ["1 /2", "1"], ["1/ 2", "1"], ["0.5", "0.5", "1"],
           ["1/2", 1], [1], [["1"], [1]], [None], [True], [["1"], "1"], ["1", ["1"]], [[["1"]]], [{"a": "1"}], {"a": "1"}, True, None, ["99999999999/99999999999"], ["2147483648/2147483648"],
           "[]", "[[]]", "[", "[1]", "[\"1/2\"]", "[\"1\"", "g", "1/2", "1.5", "-1", "0x2", " 1", "f" * 16, "8" + "0" * 15, "1" + "0" * 8, -1, -(1 << 40), 1 << 32, (1 << 63) - 1]
    ctx.pmap(refused, [("sith", b) for b in bad])
    ctx.pmap(refused, [("thold", b) for b in bad if not isinstance(b, str) and b not in ([],)])
    E = "M" + "AAB"
    lim = [E[:n] for n in (1, 2, 3)] + ["0HAAAAA", "4AABA1s2", "E" + "A" * 43, "B" + "A" * 43, "-AAB", "MAA\u00e9", "M+AB", "#AAB", "0AAAAAAAAAAAAAAAAAAAAAAAA", b"\xff\xfe\xfd\xfc", b"M\xc3\xa9B",
                                       "0", "4", "\u00e9", "NAAAAAAAAAA", "NAAAAAAAAA", "N_________8"[:11], "NAAAAAQAAAAA"[:11]]
    fits = {"0AAAAAAAAAAAAAAAAAAAAAAAA", "NAAAAAAAAAA"}
    ctx.pmap(refused, [("limen", t) for t in lim if t not in fits])
    big = [(c, n) for c, w in (("0H", 4), ("N", 8), ("0A", 16)) for n in ((1 << 32), (1 << 32) + 1, (1 << 40) + 3, (1 << 63), (1 << 63) + 1, (1 << 64) - 1, (1 << 64), (1 << 64) + 2, (1 << 127) + 1) if n < 1 << (8 * w)]
    ctx.pmap(refused, [("limen", Seq(prims.forms(c, be(n, WIDTH[c]))[0].e)) for c, n in big])
    texts = ["1s2", "1s3c1s3", "2", "1s2s3c1", "x", "1s0c1", "s", "1a", "a1", "1c", "1aa1", "3s2", "1s2c1s2a1s2", "1S2", "1S2C1S2", "1S2c1S2", "1S2C1s2a1", "1A1", "1s2A1s2", "1C1", "1s_2", "1-2", "1s2-1s2", "1_0", "1s2s", "c1", "1s2cc1s2", "1s2_"]
    from checks.p29 import rawof
    ctx.pmap(refused, [("limen", prims.forms(*reversed(rawof(tuple(t.encode()))))[0]) for t in texts])
    ctx.pmap(nothing, [()])
