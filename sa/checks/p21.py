"""Version strings: versify writes identifier, version, kind and size in the fixed 17-character layout for every version nibble
and every 24-bit size and refuses what does not fit; deversify and sniff read back exactly what was written and refuse anything else."""
import vals
from domain import Agg, HEXD, S, Seq, mkbits, mkhex, symbit
from lib import symint
from matterlib import opt
from pathlib_ import errs, oks, same

RULE = "one obligation per (operation, field, class of inputs); version nibbles and the size are unknown bits"
FLOOR = 150
IDENTS = ("KERI", "ACDC")


def nib(name):
    return tuple(symbit(name, i) for i in range(4))


def hexes(bits, n):
    b = tuple(bits) + (0,) * (4 * n - len(bits))
    return tuple(mkhex(b[4 * i:4 * i + 4]) for i in reversed(range(n)))


MA, MI = nib("major"), nib("minor")
SZ = tuple(symbit("size", i) for i in range(24))
TAIL = hexes(SZ, 6) + (95,)


def vs(ident="KERI", ma=MA, mi=MI, kind="JSON", tail=TAIL):
    return Seq(tuple(ident.encode()) + hexes(ma, 1) + hexes(mi, 1) + tuple(kind.encode()) + tail)


def u(bits, w):
    return mkbits(tuple(bits) + (0,) * (w - len(bits)))


def version(W, ma, mi):
    names = [f["n"] for f in W.adts[W.adt("common::Version")]["vs"][0]["f"]]
    v = {"major": ma, "minor": mi}
    return Agg(0, tuple(v[n] for n in names))


def field(W, ty, v, name):
    names = [f["n"] for f in W.adts[W.adt(ty)]["vs"][0]["f"]]
    return v.f[names.index(name)]


def write(ctx, ident, form):
    W = ctx.W
    fi = W.fn("core::common::versify")
    r = W.run()
    ver = opt(r.ref(version(W, u(MA, 8), u(MI, 8))))
    want = vs(ident or "KERI")
    idt = opt(r.s(ident) if ident else None)
    kind = opt(r.s("JSON") if form != "default-kind" else None)
    size = opt(u(SZ, 32))
    if form == "default-version":
        ver = opt(None)
        want = vs(ident or "KERI", (1, 0, 0, 0), (0, 0, 0, 0))
    if form == "default-size":
        size = opt(None)
        want = vs(ident or "KERI", tail=tuple(b"000000_"))
    k = "versify/%s/%s" % (ident or "default", form)
    what = "versify(%s) %s" % (ident or "default identifier", form)
    oks(ctx, k, r, fi, [idt, ver, kind, size], what, lambda p, kk, w, bad, v: same(ctx, p, kk + "/text", w, bad, v, want, "the version string"))


def write_exact(ctx, ident, ma, mi, n):
    W = ctx.W
    r = W.run()
    want = S("%s%x%xJSON%06x_" % (ident, ma, mi, n))
    oks(ctx, "versify/%s/%d.%d/%d" % (ident, ma, mi, n), r, W.fn("core::common::versify"), [opt(r.s(ident)), opt(r.ref(version(W, ma, mi))), opt(r.s("JSON")), opt(n)],
        "versify(%s) of version %d.%d and size %d" % (ident, ma, mi, n), lambda p, kk, w, bad, v: same(ctx, p, kk + "/text", w, bad, v, want, "the version string"))
    t = want.e
    for fn, pres in (("deversify", (0,)), ("sniff", (0, 1, 2, 3, 6, 12))):
        for pre in pres:
            tt = t if fn == "deversify" else tuple((b'{"a":1,"v":"' if pre == 12 else b'{"v":"' if pre == 6 else b"{" * pre)[:pre]) + t + tuple(b'","t":"icp","i":"abc"}')

            def judge(p, kk, w, bad, v):
                ty = "SniffResult" if fn == "sniff" else "DeversifyResult"
                same(ctx, p, kk + "/ident", w, bad, field(W, ty, v, "ident"), S(ident), "the identifier")
                same(ctx, p, kk + "/size", w, bad, field(W, ty, v, "size"), n, "the size")
                vv = field(W, ty, v, "version")
                same(ctx, p, kk + "/major", w, bad, field(W, "common::Version", vv, "major"), ma, "the major version")
                same(ctx, p, kk + "/minor", w, bad, field(W, "common::Version", vv, "minor"), mi, "the minor version")
            r = W.run()
            oks(ctx, "%s/%s/%d.%d/%d/%d" % (fn, ident, ma, mi, n, pre), r, W.fn("core::common::" + fn), [r.ref(Seq(tt))],
                "%s of the %s version string of version %d.%d and size %d at offset %d" % (fn, ident, ma, mi, n, pre), judge)


def write_bad(ctx, what, ident="KERI", ma=None, mi=None, kind="JSON", size=None):
    W = ctx.W
    fi = W.fn("core::common::versify")
    r = W.run()
    ver = version(W, u(MA, 8) if ma is None else ma, u(MI, 8) if mi is None else mi)
    errs(ctx, "versify-refuses/" + what, r, fi, [opt(r.s(ident)), opt(r.ref(ver)), opt(r.s(kind)), opt(u(SZ, 32) if size is None else size)],
         "versify with " + what)


def read(ctx, ident, fn, pre):
    W = ctx.W
    fi = W.fn("core::common::" + fn)
    r = W.run()
    t = vs(ident)
    if fn == "sniff":
        head = (b'{"a":1,"v":"' if pre == 12 else b'{"v":"' if pre == 6 else b"{" * pre)[:pre]
        t = Seq(tuple(head) + t.e + tuple(b'","t":"icp"}'))
    k = "%s/%s/%d" % (fn, ident, pre)
    what = "%s of any %s version string%s" % (fn, ident, " at offset %d" % pre if fn == "sniff" else "")
    ty = "SniffResult" if fn == "sniff" else "DeversifyResult"

    def judge(p, kk, w, bad, v):
        same(ctx, p, kk + "/ident", w, bad, field(W, ty, v, "ident"), S(ident), "the identifier")
        same(ctx, p, kk + "/kind", w, bad, field(W, ty, v, "kind"), S("JSON"), "the kind")
        same(ctx, p, kk + "/size", w, bad, field(W, ty, v, "size"), u(SZ, 32), "the size")
        vv = field(W, ty, v, "version")
        same(ctx, p, kk + "/major", w, bad, field(W, "common::Version", vv, "major"), u(MA, 8), "the major version")
        same(ctx, p, kk + "/minor", w, bad, field(W, "common::Version", vv, "minor"), u(MI, 8), "the minor version")
    oks(ctx, k, r, fi, [r.ref(t)], what, judge)


def read_bad(ctx, fn, name, t):
    W = ctx.W
    r = W.run()
    errs(ctx, "%s-refuses/%s" % (fn, name), r, W.fn("core::common::" + fn), [r.ref(t)], "%s of %s" % (fn, name))


def put(s, i, c):
    return Seq(s.e[:i] + (c,) + s.e[i + 1:])


def sniffable(t, pre=6):
    return Seq(tuple(b'{"v":"') + t.e + tuple(b'","t":"icp"}'))


def check(ctx):
    ctx.pmap(write, [(i, f) for i in IDENTS + (None,) for f in ("full", "default-kind", "default-version", "default-size")])
    ctx.pmap(write_exact, [("KERI", ma, mi, n) for ma, mi in ((0, 0), (1, 0), (9, 9), (10, 1), (1, 10), (15, 15), (2, 11)) for n in (0, 9, 10, 255, 4096, 65535, 65536, 0xABCDEF, 0xFFFFFF)]
             + [("ACDC", 1, 0, n) for n in (0, 17, 1000000)])
    bad = [("unknown identifier %r" % i, {"ident": i}) for i in ("", "KER", "keri", "XXXX", "KERII", "ACD", "JSON")]
    bad += [("unknown kind %r" % i, {"kind": i}) for i in ("", "CBOR", "MGPK", "json", "JSO", "JSONN")]
    for b in range(4, 8):
        hi = tuple(1 if j == b else symbit("hi", j) for j in range(8))
        bad.append(("any major version with bit %d" % b, {"ma": mkbits(hi)}))
        bad.append(("any minor version with bit %d" % b, {"mi": mkbits(hi)}))
    for b in range(24, 32):
        bad.append(("any size with bit %d" % b, {"size": mkbits(tuple(1 if j == b else symbit("big", j) for j in range(32)))}))
    ctx.pmap(lambda c, n, k: write_bad(c, n, **k), bad)
    ctx.pmap(read, [(i, "deversify", 0) for i in IDENTS] + [(i, "sniff", n) for i in IDENTS for n in range(13)])
    cases = []
    for name, t in corrupt():
        cases.append(("deversify", name, t))
    for name, t in corrupt(sniffing=True):
        cases.append(("sniff", name, sniffable(t)))
    base = vs()
    for n in (0, 1, 16, 17, 28):
        cases.append(("sniff", "only %d bytes" % n, Seq((base.e + tuple(b'","t":"icp"}'))[:n])))
    for n in (13, 14, 40):
        cases.append(("sniff", "a version string at offset %d" % n, Seq((32,) * n + base.e + tuple(b'","t":"icp"}'))))
    cases.append(("sniff", "bytes that are not UTF-8", Seq(tuple(b'{"v":"') + base.e + (0xff, 0xfe) + tuple(b'","t":"icp"}'))))
    cases.append(("sniff", "no version string", Seq(tuple(b'{"v":"' + b"x" * 40))))
    ctx.pmap(read_bad, cases)


def corrupt(sniffing=False):
    """texts that are no version string, one deviation each"""
    base = vs()
    out = []
    for i in range(4):
        for c in b"a0_-":
            out.append(("identifier character %d being %r" % (i, chr(c)), put(base, i, c)))
    for i in (4, 5) + tuple(range(10, 16)):
        for c in b"gAF_ +-G":
            out.append(("hexadecimal character %d being %r" % (i, chr(c)), put(base, i, c)))
    for i in range(6, 10):
        for c in b"a0_":
            out.append(("kind character %d being %r" % (i, chr(c)), put(base, i, c)))
    for c in b" -0A":
        out.append(("the terminator being %r" % chr(c), put(base, 16, c)))
    for k in ("CBOR", "MGPK", "JSOM"):
        out.append(("the kind " + k, vs(kind=k)))
    if not sniffing:
        for k in ("KERJ", "XXXX", "ADCA", "JSON"):
            out.append(("the identifier " + k, vs(ident=k)))
        for n in (0, 1, 16):
            out.append(("the first %d characters" % n, Seq(base.e[:n])))
        for pre in (b"x", b"0", b"A", b'"'):
            out.append(("a leading %r" % pre, Seq(tuple(pre) + base.e)))
        for post in (b"x", b"0", b"A", b'"', b"_"):
            out.append(("a trailing %r" % post, Seq(base.e + tuple(post))))
        out.append(("two version strings", Seq(base.e + base.e)))
    return out
