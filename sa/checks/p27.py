"""Numbers are exact: every 128-bit number is held in the smallest permitted code, big-endian, and read back as the same number, from
integers, hexadecimal text and every material form; sequence numbers always use the 16-byte code; hexadecimal that is not a number is refused."""
import re
import lib
import prims
from absint import inexact
from check import short
from domain import S, Seq, mkbits, show, symbit, symbytes
from world import sat
from matterlib import opt
from pathlib_ import bools, errs, oks, same
from checks.p21 import hexes

RULE = "one obligation per (constructor, position of the highest set bit, accessor); all lower bits unknown"
FLOOR = 800
WIDTH = {"M": 2, "0H": 4, "N": 8, "0A": 16}


def code_for(k):
    return "M" if k < 16 else "0H" if k < 32 else "N" if k < 64 else "0A"


def num(k, w=128):
    """every number whose highest set bit is k (k = -1: zero)"""
    return mkbits(tuple(symbit("n", i) if i < k else 1 if i == k else 0 for i in range(w)))


def be(n, size):
    b = n.b if hasattr(n, "b") else tuple((n >> i) & 1 for i in range(128))
    b = tuple(b) + (0,) * (128 - len(b))
    return Seq(tuple(mkbits(b[8 * i:8 * i + 8]) for i in reversed(range(size))))


def judge(ctx, ty, code, n, size, k, p, w, bad, v):
    q = p.run
    x = q.ref(v)
    W = ctx.W
    same(ctx, p, k + "/code", w, bad, q.get(x, ty, "code"), S(code), "code()")
    same(ctx, p, k + "/raw", w, bad, q.get(x, ty, "raw"), be(n, size), "raw()")
    for m, want in (("num" if ty == "Number" else "sn", n), ("numh" if ty == "Number" else "snh", None)):
        o = q.call(W.method(ty, m), x)
        if want is None:
            want = S("%x" % n) if type(n) is int else Seq(hexes(n.b, (max(i for i, b in enumerate(n.b) if b == 1) + 4) // 4))
        if o.kind() == "ok":
            same(ctx, p, k + "/" + m, w, bad, q.deep(o.okv()), want, m + "()")
        elif o.kind() in ("err", "panic"):
            bad(k + "/" + m, "%s: %s() %s" % (w, m, "is refused" if o.kind() == "err" else "panics"))
        else:
            ctx.unknown(k + "/" + m, w)
    if ty == "Number":
        z = type(n) is int and n == 0
        for m, want in (("positive", not z),):
            o = q.call(W.method(ty, m), x)
            g = q.deep(o.okv()) if o.kind() == "ok" else None
            if type(g) is int:
                if bool(g) != want:
                    bad("%s/%s" % (k, m), "%s: %s() is %s" % (w, m, bool(g)))
                else:
                    ctx.ok("%s/%s" % (k, m))
            elif g is not None and not inexact(g) and q.modelled() and sat(((g, 1),), q.I.nz) is True and sat(((g, 0),), q.I.nz) is True:
                bad("%s/%s" % (k, m), "%s: %s() depends on %s" % (w, m, short(show(g))))
            else:
                ctx.unknown("%s/%s" % (k, m), w)


def integer(ctx, ty, k):
    W = ctx.W
    n = num(k)
    code = code_for(k) if ty == "Number" else "0A"
    r = W.run()
    what = "%s::new of any number with highest bit %d" % (ty, k)
    a = prims.args(r, prims.PRIM[ty][0], {"num": n} if ty == "Number" else {"sn": n})
    oks(ctx, "%s/int/%d" % (ty, k), r, W.method(ty, "new"), a, what, lambda p, kk, w, bad, v: judge(ctx, ty, code, n, WIDTH[code], kk, p, w, bad, v))


PROBES = [x + d for k in (4, 7, 8, 15, 16, 24, 31, 32, 33, 48, 63, 64, 65, 72, 96, 100, 120, 127) for x in (1 << k,) for d in (-1, 0, 1, 5, 1 << (k // 2))] + [(1 << 128) - 1, (1 << 128) - 2, int("1234567890abcdef" * 2, 16), int("0fedcba987654321" * 2, 16), 10, 99, 100]


def concrete(ctx, ty, n):
    W = ctx.W
    code = code_for(n.bit_length() - 1) if ty == "Number" else "0A"
    num_, hex_ = ("num", "numh") if ty == "Number" else ("sn", "snh")
    for tag, g in (("int", {num_: n}), ("hex", {hex_: S("%x" % n)}), ("HEX", {hex_: S("%X" % n)}), ("both", {num_: n, hex_: S("5")})):
        r = W.run()
        a = prims.args(r, prims.PRIM[ty][0], g)
        oks(ctx, "%s/%s/%d" % (ty, tag, n), r, W.method(ty, "new"), a, "%s::new of %d (%s)" % (ty, n, tag), lambda p, kk, w, bad, v: judge(ctx, ty, code, n, WIDTH[code], kk, p, w, bad, v))


def hexa(ctx, ty, nd, lead):
    """hexadecimal text of nd digits, the leading one fixed"""
    W = ctx.W
    bits = tuple(symbit("n", i) for i in range(4 * (nd - 1))) + tuple((lead >> i) & 1 for i in range(4))
    n = mkbits((bits + (0,) * 128)[:128])
    t = Seq(hexes(bits, nd))
    top = 4 * (nd - 1) + lead.bit_length() - 1
    if lead == 0:
        return
    code = code_for(top) if ty == "Number" else "0A"
    r = W.run()
    what = "%s::new of any %d-digit hexadecimal text starting with %x" % (ty, nd, lead)
    a = prims.args(r, prims.PRIM[ty][0], {"numh" if ty == "Number" else "snh": t})
    oks(ctx, "%s/hex/%d-%x" % (ty, nd, lead), r, W.method(ty, "new"), a, what, lambda p, kk, w, bad, v: judge(ctx, ty, code, n, WIDTH[code], kk, p, w, bad, v))


def text(ctx, ty, t, n):
    W = ctx.W
    r = W.run()
    a = prims.args(r, prims.PRIM[ty][0], {"numh" if ty == "Number" else "snh": S(t)})
    what = "%s::new of the hexadecimal text %r" % (ty, t)
    k = "%s/text/%s" % (ty, t)
    if n is None:
        errs(ctx, k, r, W.method(ty, "new"), a, what)
        return
    code = code_for(n.bit_length() - 1) if ty == "Number" else "0A"
    oks(ctx, k, r, W.method(ty, "new"), a, what, lambda p, kk, w, bad, v: judge(ctx, ty, code, n, WIDTH[code], kk, p, w, bad, v))


def material(ctx, ty, code, form):
    """a number is read from any material of its permitted codes, also when a smaller code would do"""
    W = ctx.W
    size = WIDTH[code]
    raw = symbytes("raw", size)
    bits = tuple(b for x in reversed(raw.e) for b in x.b)
    n = mkbits(bits + (0,) * (128 - len(bits)))
    t, fs = prims.forms(code, raw)
    r = W.run()
    g = {form: fs[form]}
    if form == "raw":
        g["code"] = S(code)
    a = prims.args(r, prims.PRIM[ty][0], g)
    what = "%s::new from the %s form of code %s" % (ty, form, code)

    def jd(p, kk, w, bad, v):
        q = p.run
        o = q.call(W.method(ty, "num" if ty == "Number" else "sn"), q.ref(v))
        if o.kind() == "ok":
            same(ctx, p, kk + "/num", w, bad, q.deep(o.okv()), n, "the number")
        else:
            (bad if o.kind() in ("err", "panic") else ctx.unknown)(kk + "/num", w + ": no number")
    oks(ctx, "%s/material/%s/%s" % (ty, code, form), r, W.method(ty, "new"), a, what, jd)


def check(ctx):
    ctx.pmap(integer, [(ty, k) for ty in ("Number", "Seqner") for k in range(-1, 128)])
    ctx.pmap(hexa, [(ty, nd, d) for ty in ("Number", "Seqner") for nd in range(1, 33) for d in ((1, 3, 7, 15) if not ctx.thorough else range(1, 16))])
    ctx.pmap(concrete, [(ty, n) for ty in ("Number", "Seqner") for n in sorted({0, 1, *PROBES})])
    bad = ["g", "0x1", "-1", " 1", "1 ", "1_0", "+", "f" * 33, "1" + "0" * 32, "\u0661", "1.0"]
    bad += [t for t in lib.ODD if not re.fullmatch("[+]?[0-9a-fA-F]+", t) and t not in bad]
    good = {"0": 0, "00": 0, "0001": 1, "ff": 255, "FF": 255, "fFfF": 65535, "10000": 65536, "0" * 40 + "1": 1, "f" * 32: (1 << 128) - 1}
    ctx.pmap(text, [(ty, t, None) for ty in ("Number", "Seqner") for t in bad] + [("Seqner", "", None), ("Number", "", 0)]
             + [(ty, t, n) for ty in ("Number", "Seqner") for t, n in good.items()])
    ctx.pmap(material, [("Number", c, f) for c in WIDTH for f in ("raw", "qb64b", "qb64", "qb2")] + [("Seqner", "0A", f) for f in ("raw", "qb64b", "qb64", "qb2")])
