"""Equality is exactly sameness of content, and copies are complete: two objects of one type are equal when every way of making them denotes the
same content and unequal when any part of their content differs; a copy equals its original in every part; comparing never fails."""
import digs
import prims
import spec
import vals
from check import differs, short
from checks.p18 import concrete
from checks.p19 import event, key
from checks.p21 import version, vs
from domain import Agg, Ref, S, Seq, is_top, show, symbytes
from lib import symchars
from matterlib import opt

RULE = "one obligation per (type, pair of objects) and per (type, object copied); contents are unknown bytes or differ in one place"
FLOOR = 250
ONE, ZERO = (1, 0, 0, 0), (0, 0, 0, 0)


def seqs(n, flip=None):
    """n fixed bytes, one of them changed"""
    e = [(7 * i + 3) & 0xff for i in range(n)]
    if flip is not None:
        e[flip] ^= 0x10
    return Seq(tuple(e))


class Things:
    """the objects of one run: (content label, way of making, object)"""

    def __init__(self, W):
        self.W, self.out, self.unmodelled = W, [], {}
        self.r = W.run(oracle=prims.crypto_ok)

    def put(self, content, how, o):
        v = o.okv() if o is not None and o.kind() == "ok" else None
        self.out.append((content, how, None if v is None else self.r.deep(v), o.kind() if self.r.modelled() else None))
        self.r = self.W.run(oracle=prims.crypto_ok)

    def part(self, x, ty, m):
        return self.r.deep(self.r.call(self.W.method(ty, m), self.r.ref(x)).okv())

    def call(self, content, how, ty, m, *args):
        self.put(content, how, self.r.call(self.r.W.method(ty, m), *args))

    def new(self, content, how, ty, **g):
        self.put(content, how, prims.new(self.r, ty, **{k: S(v) if isinstance(v, str) else v for k, v in g.items()}))


def matter(t, ty, codes, **extra):
    for c in codes:
        n = prims.nraw(c)
        for tag, raw in [("any bytes", symbytes("raw", n))] + [("bytes", seqs(n))] + [("byte %d changed" % i, seqs(n, i)) for i in sorted({0, n // 2, n - 1})]:
            f = prims.forms(c, raw)[1]
            for how in ("raw", "qb64", "qb64b", "qb2") if tag in ("any bytes", "bytes") else ("raw",):
                t.new("%s of code %s" % (tag, c), how, ty, **dict(extra, code=c, **{how: f[how]}))


def build(W, ty):
    """objects of one type"""
    t = Things(W)
    n = opt(None)
    if ty in ("Verfer", "Diger", "Cigar", "Signer", "Salter", "Seqner", "Number", "Bexter", "Pather", "Prefixer", "Saider"):
        codes = {"Cigar": ("0B", "0C", "0I"), "Signer": ("A", "J", "Q"), "Salter": ("0A",), "Seqner": ("0A",), "Number": ("M", "0H", "N", "0A"), "Bexter": ("4A", "5A", "6A"),
                 "Pather": (), "Prefixer": prims.VERF + prims.DIG[:2], "Verfer": prims.VERF, "Diger": prims.DIG, "Saider": prims.DIG}[ty]
        matter(t, ty, codes)
    vk = lambda i, c="D": t.r.deep(prims.new(t.r, "Verfer", code=S(c), raw=seqs(prims.nraw(c), i)).okv())  # noqa: E731
    if ty == "Cigar":
        for nm, i in (("one key", 1), ("another key", 2)):
            t.new("bytes of code 0B by " + nm, "raw", ty, code="0B", raw=seqs(64), verfer=vk(i))
            t.new("bytes of code 0B by " + nm, "qb64", ty, qb64=prims.forms("0B", seqs(64))[0], verfer=vk(i))
        for c in ("B", "1AAB", "1AAA"):
            t.new("bytes of code 0B by one key of code " + c, "raw", ty, code="0B", raw=seqs(64), verfer=vk(1, c))
    elif ty == "Signer":
        for tr in (0, 1):
            t.new("bytes of code A" if tr else "bytes of code A, not transferable", "raw, %d" % tr, ty, code="A", raw=seqs(32), transferable=tr)
    elif ty == "Salter":
        for tier in ("low", "med", "high"):
            t.new("bytes of code 0A" if tier == "low" else "bytes, " + tier, "tier " + tier, ty, code="0A", raw=seqs(16), tier=tier)
    elif ty == "Seqner":
        for x in (0, 1, 2, 1 << 64, (1 << 64) + 1):
            t.new("sn %d" % x, "sn", ty, sn=x)
            t.new("sn %d" % x, "snh", ty, snh="%x" % x)
            t.new("sn %d" % x, "raw", ty, code="0A", raw=Seq(tuple(x.to_bytes(16, "big"))))
    elif ty == "Number":
        for x in (0, 1, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, 1 << 64, (1 << 64) + 1):
            c = next(c for c, w in (("M", 2), ("0H", 4), ("N", 8), ("0A", 16)) if x < 1 << (8 * w))
            w = {"M": 2, "0H": 4, "N": 8, "0A": 16}[c]
            t.new("num %d" % x, "num", ty, num=x)
            t.new("num %d" % x, "numh", ty, numh="%x" % x)
            t.new("num %d" % x, "raw", ty, code=c, raw=Seq(tuple(x.to_bytes(w, "big"))))
    elif ty == "Dater":
        for d in ("2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988922+00:00", "2020-08-22T17:50:09.988921-00:00", "2120-08-22T17:50:09.988921+00:00", "2020-08-22T18:50:09.988921+01:00"):
            t.new(d, "dts", ty, dts=d)
            x = t.out[-1][2]
            if x is not None:
                q = t.part(x, ty, "qb64")
                t.new(d, "qb64", ty, qb64=q)
    elif ty == "Bexter":
        for b in ("abc", "abd", "a", "abcd", "abcde", "BBBB", "-_zz", "ABC"):
            t.new("text " + b, "bext", ty, bext=b)
    elif ty == "Pather":
        for nm, p in (("root", []), ("one", ["a"]), ("two", ["a", "b"]), ("other", ["a", "c"]), ("order", ["b", "a"]), ("joined", ["ab"])):
            t.new(nm, "path", ty, path=vals.val(p))
            t.new(nm, "bext", ty, bext="-" + "-".join(p))
    elif ty == "Prefixer":
        for c in ("B", "D"):
            t.call("bytes of code " + c, "event", ty, "new_with_ked", t.r.ref(vals.val(event(k=[prims.forms(c, seqs(32))[0]]))), n, opt(t.r.s(c)))
    elif ty == "Siger":
        for c in ("A", "2A", "B", "2B", "E", "C"):
            idx = ((5, None), (6, None), (5, 5)) if c in ("A", "E") else ((5, 70), (5, 71), (6, 70), (70, 5)) if c == "2A" else ((5, None), (6, None))
            for i, j in idx:
                for tag, raw in (("bytes", seqs(64)), ("first changed", seqs(64, 0)), ("last changed", seqs(64, 63)), ("any bytes", symbytes("raw", 64))):
                    g = {"code": S(c), "raw": raw, "index": i}
                    if j is not None:
                        g["ondex"] = j
                    j_ = i if c in ("A", "E") and j is None else j
                    t.new("%s %s/%s %s" % (c, i, j_, tag), "raw %s" % j, ty, **g)
                    x = t.out[-1][2]
                    if x is not None and tag == "bytes":
                        for f in ("qb64", "qb64b", "qb2"):
                            t.new("%s %s/%s %s" % (c, i, j_, tag), f, ty, **{f: t.part(x, ty, f)})
        for nm, i in (("one key", 1), ("another key", 2)):
            t.new("A 5/5 bytes by " + nm, "raw", ty, code="A", raw=seqs(64), index=5, verfer=vk(i))
        for c in ("B", "1AAB", "1AAA"):
            t.new("A 5/5 bytes by one key of code " + c, "raw", ty, code="A", raw=seqs(64), index=5, verfer=vk(1, c))
    elif ty == "Counter":
        b64 = lambda x, k: "".join(spec_b64(x, k))  # noqa: E731
        for c, k in (("-A", 2), ("-B", 2), ("-0V", 5), ("-V", 2)):
            for x in (0, 1, 2, 63, 64, 65, 4095):
                t.call("%s %d" % (c, x), "count", ty, "new", opt(x), n, opt(t.r.s(c)), n, n, n)
                t.call("%s %d" % (c, x), "count_b64", ty, "new", n, opt(t.r.s(b64(x, k))), opt(t.r.s(c)), n, n, n)
                t.call("%s %d" % (c, x), "qb64", ty, "new", n, n, n, n, opt(t.r.s(c + b64(x, k))), n)
    elif ty == "Tholder":
        for nm, ways in (("two", [2, "2"]), ("three", [3, "3"]), ("ten", [10, "a"]), ("one", [1, "1"]), ("weights", [["1/2", "1/2"], [["1/2", "1/2"]], '["1/2","1/2"]', ["2/4", "1/2"]]),
                         ("weights in order", [["1/3", "2/3"], [["1/3", "2/3"]]]), ("weights out of order", [["2/3", "1/3"]]), ("clauses", [[["1"], ["1"]]]), ("one clause", [["1", "1"], [["1", "1"]]]),
                         ("more", [["1/2", "1/2", "0"]])):
            for w in ways:
                t.call(nm, "sith %r" % w, ty, "new", n, n, opt(t.r.ref(vals.val(w))))
            x = t.out[-1][2]
            if x is not None:
                t.call(nm, "limen", ty, "new", n, opt(t.r.ref(t.part(x, ty, "limen"))), n)
    elif ty in ("Serder", "Creder"):
        ident = "KERI" if ty == "Serder" else "ACDC"
        v = vs(ident, ONE, ZERO)
        d = prims.forms("E", seqs(32))[0]
        d2 = prims.forms("E", seqs(32, 5))[0]
        ms = {"message": {"v": v, "d": d, "i": "x", "a": {"n": 1}}, "other text": {"v": v, "d": d, "i": "y", "a": {"n": 1}}, "other order": {"v": v, "d": d, "a": {"n": 1}, "i": "x"},
              "other number": {"v": v, "d": d, "i": "x", "a": {"n": 2}}, "other identifier": {"v": v, "d": d2, "i": "x", "a": {"n": 1}}, "one field more": {"v": v, "d": d, "i": "x", "a": {"n": 1}, "z": None}}
        for nm, m in ms.items():
            t.call(nm, "ked", ty, "new_with_ked", t.r.ref(vals.val(m)), n, n)
            x = t.out[-1][2]
            if x is not None:
                raw = t.r.deep(t.r.get(t.r.ref(x), ty, "raw"))
                t.call(nm, "raw", ty, "new", n, opt(t.r.ref(raw)), n, n, n)
                t.call(nm, "sad", ty, "new", n, n, n, n, opt(t.r.ref(x)))
        t.call("code F", "ked", ty, "new_with_ked", t.r.ref(vals.val(dict(ms["message"], d=prims.forms("F", seqs(32))[0]))), opt(t.r.s("F")), n)
    elif ty == "data::Value":
        xs = [None, True, False, 0, 1, -1, (1 << 63) - 1, 0.0, 1.0, 1.5, "", "a", "1", "null", "A", [], [None], [1], [1, 2], [2, 1], [[1]], {}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": 2}, {"a": None},
              {"a": {"b": 1}}, {"a": [1]}, ["a"], [{}], [[]]]
        for x in xs:
            for how in ("one", "two"):
                t.out.append((repr(x), how, vals.val(x), "ok"))
        for how in ("one", "two"):
            t.out.append(("any text", how, vals.val(Seq(symchars("t", 5))), "ok"))
    elif ty == "common::Version":
        for a in (0, 1, 2, 255):
            for b in (0, 1, 255):
                for how in ("one", "two"):
                    t.out.append(("%d.%d" % (a, b), how, version(W, a, b), "ok"))
    return t.out


def spec_b64(x, k):
    A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    return [A[(x >> (6 * i)) & 63] for i in reversed(range(k))]


TYPES = ("Verfer", "Diger", "Cigar", "Signer", "Salter", "Seqner", "core::number::Number", "Dater", "Bexter", "Pather", "Prefixer", "Saider", "Siger", "Counter", "Tholder", "Serder", "Creder", "data::Value", "common::Version")


def alike(ctx, ty):
    W = ctx.W
    short_ = "Number" if ty == "core::number::Number" else ty
    xs = build(W, short_)
    eq = W.trait_method(ty, "PartialEq", "eq")
    cl = W.trait_method(ty, "Clone", "clone")
    good = []
    for c, how, v, kind in xs:
        if v is not None:
            good.append((c, how, v))
        else:
            ctx.unknown("%s/made/%s/%s" % (short_, c, how), "a %s of %s from %s" % (short_, c, how))

    def ask(k, want, what, x, y):
        r = W.run()
        o = r.call(eq, r.ref(x), r.ref(y))
        if not seen:
            ctx.seen(r)
            seen.append(1)
        if o.never:
            (ctx.fail(k, W.loc(eq), what + ": panics") if r.modelled() else ctx.unknown(k, what))
            return
        v = r.deep(o.v)
        if type(v) is int and v == want:
            ctx.ok(k)
        elif type(v) is int and r.modelled():
            ctx.fail(k, W.loc(eq), "%s: %s" % (what, "equal" if v else "not equal"))
        else:
            ctx.unknown(k, "%s: %s" % (what, short(show(v))))
    seen = []
    first = {}
    for c, how, x in good:
        first.setdefault(c, (how, x))
    for c, how, x in good:
        h0, x0 = first[c]
        ask("%s/same/%s/%s" % (short_, c, how), 1, "a %s of %s made from %s compared with the same made from %s" % (short_, c, how, h0), x, x0)
        r = W.run()
        o = r.call(cl, r.ref(x))
        k = "%s/copy/%s/%s" % (short_, c, how)
        if o.never:
            ctx.unknown(k, "clone of " + c)
        else:
            ctx.eq(k, r, r.deep(o.v), x, W.loc(cl), "the copy of a %s of %s made from %s" % (short_, c, how))
        ctx.seen(r)
    names = [n for n in first if "any" not in n]
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            x, y = first[a][1], first[b][1]
            ask("%s/different/%s/%s" % (short_, a, b), 0, "a %s of %s compared with one of %s" % (short_, a, b), x, y)
            if i % 4 == 0:
                ask("%s/different/%s/%s/reversed" % (short_, a, b), 0, "a %s of %s compared with one of %s" % (short_, b, a), y, x)


WRAPPED = ("Diger", "Saider", "Signer", "Tholder", "Verfer")


def wrappers(ctx, ty):
    """copies made by the bindings"""
    W, WW = ctx.W, ctx.WW
    xs = build(W, ty)
    r = WW.run(oracle=prims.crypto_ok)
    cl = WW.trait_method(ty + "Wrapper", "Clone", "clone")
    for c, how, v, kind in xs:
        if v is not None:
            v = Agg(0, (v,))
            o = r.call(cl, r.ref(v))
            ctx.eq("binding/%s/copy/%s/%s" % (ty, c, how), r, r.deep(o.v), v, WW.loc(cl), "the copy the bindings make of a %s of %s" % (ty, c))
    ctx.seen(r)


def check(ctx):
    ctx.WW
    ctx.pmap(alike, [(t,) for t in TYPES])
    ctx.pmap(wrappers, [(t,) for t in WRAPPED])
