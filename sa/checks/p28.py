"""Date-times survive: Dater holds exactly the given 32-character ISO-8601 text with ':', '.' and '+' mapped to 'c', 'd' and 'p', and
gives exactly that text back, from the text and from every material form; other lengths and other characters are refused."""
import re
import lib
import prims
from domain import S, Seq, chbits, mkbits
from lib import binary
from matterlib import opt
from pathlib_ import errs, oks, same

RULE = "one obligation per (position, character, form, accessor)"
FLOOR = 900
BASE = "2020-08-22T17:50:09.988921+00:00"
NEG = "2020-08-22T17:50:09.988921-01:00"
CODE = "1AAG"
CHARS = "0123456789-T:.+ZW"


def enc(s):
    return s.replace(":", "c").replace(".", "d").replace("+", "p")


def texts():
    out = [BASE, NEG, "9999-12-31T23:59:59.999999+14:00", "0000-00-00T00:00:00.000000-00:00", "." * 32, ":" * 32, "+" * 32]
    for i in range(32):
        for c in CHARS:
            if BASE[i] != c:
                out.append(BASE[:i] + c + BASE[i + 1:])
    out += [BASE.replace("T", c) for c in "t_-aAZz"] + [BASE[:26] + t for t in ("z-----", "Z_____", "Z00000", "-00:00", "-12:45")] + [BASE.replace("-", "_"), "".join(chr(97 + i % 26) for i in range(32)).replace("c", "C").replace("d", "D").replace("p", "P"), "A" * 32, "_" * 32, "-" * 32, "9" * 32, "0" * 32]
    return list(dict.fromkeys(out))


def one(ctx, dts, form):
    W = ctx.W
    t = CODE + enc(dts)
    raw = Seq(binary(Seq(tuple(t.encode()))).e[3:])
    r = W.run()
    g = {"dts": S(dts), "qb64": S(t), "qb64b": S(t), "qb2": binary(S(t)), "raw": raw}[form]
    given = {form: g}
    if form == "raw":
        given["code"] = S(CODE)
    a = prims.args(r, prims.PRIM["Dater"][0], given)
    fi = W.method("Dater", "new")
    k = "%s/%s" % (form, dts)
    what = "Dater::new from the %s form of %s" % (form, dts)

    def judge(p, kk, w, bad, v):
        q = p.run
        x = q.ref(v)
        same(ctx, p, kk + "/code", w, bad, q.get(x, "Dater", "code"), S(CODE), "code()")
        same(ctx, p, kk + "/raw", w, bad, q.get(x, "Dater", "raw"), raw, "raw()")
        for m in ("dts", "dtsb", "qb64"):
            o = q.call(W.method("Dater", m), x)
            if o.kind() == "ok":
                same(ctx, p, kk + "/" + m, w, bad, q.deep(o.okv()), S(t if m == "qb64" else dts), m + "()")
            elif o.kind() in ("err", "panic"):
                bad(kk + "/" + m, "%s: %s() %s" % (w, m, "is refused" if o.kind() == "err" else "panics"))
            else:
                ctx.unknown(kk + "/" + m, w)
    oks(ctx, k, r, fi, a, what, judge)


def bad(ctx, dts):
    W = ctx.W
    r = W.run()
    errs(ctx, "refused/%r" % dts, r, W.method("Dater", "new"), prims.args(r, prims.PRIM["Dater"][0], {"dts": S(dts)}), "Dater::new of the text %r" % dts)


NOW = [(2026, 11, 20, 7, 5, 9, 12345678), (1999, 12, 31, 23, 59, 59, 999999999), (2000, 2, 29, 0, 0, 0, 0), (2024, 1, 1, 12, 0, 0, 500000000), (9999, 10, 10, 13, 30, 1, 1000),
       (2020, 8, 22, 17, 50, 9, 988921000), (2100, 3, 4, 5, 6, 7, 999), (2026, 6, 7, 21, 48, 0, 120000000)]


def now(ctx, t):
    """without material a Dater holds the moment the clock shows, to the microsecond"""
    W = ctx.W
    r = W.run()
    r.I.clock = t
    dts = "%04d-%02d-%02dT%02d:%02d:%02d.%06d+00:00" % (t[:6] + (t[6] // 1000,))
    what = "Dater::new of nothing at %s" % dts

    def judge(p, kk, w, bad, v):
        o = p.run.call(W.method("Dater", "dts"), p.run.ref(v))
        if o.kind() == "ok":
            same(ctx, p, kk + "/dts", w, bad, p.run.deep(o.okv()), S(dts), "dts()")
        elif o.kind() in ("err", "panic"):
            bad(kk + "/dts", "%s: dts() %s" % (w, "is refused" if o.kind() == "err" else "panics"))
        else:
            ctx.unknown(kk + "/dts", w)
    oks(ctx, "now/%s" % dts, r, W.method("Dater", "new"), prims.args(r, prims.PRIM["Dater"][0], {}), what, judge)


def check(ctx):
    ctx.pmap(now, [(t,) for t in NOW])
    ts = texts()
    ctx.pmap(one, [(t, "dts") for t in ts] + [(t, f) for t in ts[:7] for f in ("qb64", "qb64b", "qb2", "raw")])
    bads = ["", BASE[:-1], BASE[:10], "2020-08-22T17:50:09+00:00", "2020-08-22"] + [BASE[:i] + c + BASE[i + 1:] for i in (0, 10, 31) for c in " /=#\u00e9\n\t\0"] + [c + BASE for c in (" ", "\n", "\t", "\r\n", "  ")]
    bads += [t for t in lib.ODD if len(t) != 32] + [BASE[:32 - len(t.encode())] + t for t in lib.ODD if len(t.encode()) < 32 and not all(c in CHARS for c in t) and re.search("[^A-Za-z0-9_:.+-]", t)]
    bads += [BASE + t for t in (" ", "\n", "\0", "0", "=", "A", "Z", "\r\n", "    ", "AAAA")] + [BASE[:-1] + t for t in ("\u0660", "\u2070", "\u00b9")]
    ctx.pmap(bad, [(b,) for b in bads])
