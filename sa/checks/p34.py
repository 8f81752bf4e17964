"""A message object's bytes, fields, size, kind, version and identifier always describe the same message: built from bytes it holds exactly
the bytes the version string declares and the fields they denote; built from fields it holds their canonical sized serialization."""
import lib
import prims
import vals
from domain import S, Seq, symbytes
from lib import symchars
from matterlib import opt
from pathlib_ import errs, oks, same
from checks.p21 import field, vs

RULE = "one obligation per (type, way of construction, message shape, observer); texts, identifier and size digits are unknown"
FLOOR = 250
NEAR = []
IDENT = {"Serder": "KERI", "Creder": "ACDC"}
ONE, ZERO = (1, 0, 0, 0), (0, 0, 0, 0)


def said(code="E", name="dig"):
    return prims.forms(code, symbytes(name, prims.nraw(code)))[0]


def shapes(ident, code):
    c = lambda n, k: Seq(symchars(n, k))  # noqa: E731
    d = said(code)
    v = vs(ident, ONE, ZERO)
    yield "small", {"v": v, "d": d}
    yield "event", {"v": v, "t": "icp", "d": d, "i": c("i", 44), "s": "0", "k": [c("k", 44)], "a": [], "b": {}}
    yield "late identifier", {"v": v, "z": {"y": [c("y", 3), None, True], "d": "inner"}, "a": 5, "d": d}
    yield "nested", {"v": v, "d": d, "a": {"d": c("ad", 44), "b": [{"c": c("c", 2)}, [[]], -7, False]}}
    yield "odd texts", {"v": v, "d": d, "x\"y": "a\nb\\c\u00e9", "": "", "u": "\u20ac"}
    yield "long", {"v": v, "d": d, "x": "\u00e9" * 300 + "xyz" + "\u20ac" * 200}
    yield "huge", {"v": v, "d": d, "x": "A" * 65600, "y": "\u00e9" * 20}
    for n in NEAR:
        m = n - len(vals.json({"v": v, "d": d, "x": ""}))
        if m > 0:
            yield "%d bytes" % n, {"v": v, "d": d, "x": "A" * m}
    yield "version look-alike", {"v": v, "d": d, "x": "KERI10JSON00ffff_", "w": "ACDC10JSON000001_"}


def sized(ked, ident):
    """the canonical serialization, and the message with its version string"""
    n = len(vals.json(ked))
    k = dict(ked)
    k["v"] = "%s10JSON%06x_" % (ident, n)
    return k


def observe(ctx, ty, p, kk, w, bad, x, ked, code):
    q = p.run
    W = ctx.W
    raw = vals.seq(ked)
    for m, want in (("raw", raw), ("ked", vals.val(ked)), ("ident", S(IDENT[ty])), ("kind", S("JSON")), ("size", len(raw.e)), ("code", S(code))):
        o = q.call(W.trait_method(ty, "Sadder", m), x)
        if o.never:
            bad(kk + "/" + m, "%s: %s() panics" % (w, m))
        else:
            same(ctx, p, kk + "/" + m, w, bad, q.deep(o.v), want, m + "()")
    o = q.call(W.trait_method(ty, "Sadder", "version"), x)
    v = q.deep(o.v)
    for f, want in (("major", 1), ("minor", 0)):
        same(ctx, p, kk + "/" + f, w, bad, field(W, "common::Version", v, f), want, "the %s version" % f)
    o = q.call(W.trait_method(ty, "Sadder", "saider"), x)
    s = q.ref(o.v)
    same(ctx, p, kk + "/saider", w, bad, q.get(s, "Saider", "raw"), symbytes("dig", prims.nraw(code)), "the identifier's digest")
    same(ctx, p, kk + "/saider-code", w, bad, q.get(s, "Saider", "code"), S(code), "the identifier's code")
    for m in ("said", "saidb"):
        o = q.call(W.trait_method(ty, "Sadder", m), x)
        if o.kind() == "ok":
            same(ctx, p, kk + "/" + m, w, bad, q.deep(o.okv()), ked["d"], m + "()")
        elif o.kind() in ("err", "panic"):
            bad(kk + "/" + m, "%s: %s() fails" % (w, m))
        else:
            ctx.unknown(kk + "/" + m, w)


def new(ctx, ty, r, code=None, raw=None, kind=None, ked=None, sad=None):
    f = lambda v: opt(r.ref(v) if v is not None else None)  # noqa: E731
    return ctx.W.method(ty, "new"), [f(S(code) if code is not None else None), f(raw), f(S(kind) if kind else None), f(ked), f(sad)]


def from_ked(ctx, ty, name, code, kind):
    ident = IDENT[ty]
    ked = dict(shapes(ident, code))[name]
    r = ctx.W.run()
    fi, args = new(ctx, ty, r, code=None if code == "E" else code, kind=kind, ked=vals.val(ked))
    want = sized(ked, ident)
    what = "%s::new from the fields of a message (%s, code %s, kind %s)" % (ty, name, code, kind)
    k = "%s/ked/%s/%s/%s" % (ty, name, code, kind)

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        observe(ctx, ty, p, kk, w, bad, x, want, code)
        # read back from its own bytes
        q = p.run
        fi2, a2 = new(ctx, ty, q, code=code, raw=vals.seq(want))
        o = q.call(fi2, *a2)
        if o.kind() == "ok":
            same(ctx, p, kk + "/again", w, bad, q.deep(o.okv()), q.deep(v), "the object read back from its bytes")
        elif o.kind() in ("err", "panic"):
            bad(kk + "/again", w + ": its own bytes are refused")
        else:
            ctx.unknown(kk + "/again", w)
        for c in (code, None, "F"):
            fi3, a3 = new(ctx, ty, q, code=c, sad=v)
            o = q.call(fi3, *a3)
            if o.kind() == "ok":
                same(ctx, p, "%s/copy-%s" % (kk, c), w, bad, q.deep(o.okv()), q.deep(v), "the copy")
            elif o.kind() in ("err", "panic"):
                bad("%s/copy-%s" % (kk, c), w + ": a copy is refused")
            else:
                ctx.unknown("%s/copy-%s" % (kk, c), w)
        # bytes come first, then fields, then another object
        sh = dict(shapes(ident, code))
        other = sized(sh["small" if name != "small" else "nested"], ident)
        for nm, g in (("raw and ked", {"raw": vals.seq(want), "ked": vals.val(other)}), ("raw, ked and sad", {"raw": vals.seq(want), "ked": vals.val(other), "sad": v}), ("ked and sad", {"ked": vals.val(other), "sad": v})):
            exp = other if nm == "ked and sad" else want
            if nm == "raw and ked" or name in ("small", "event"):
                fi4, a4 = new(ctx, ty, q, code=code, **g)
                o = q.call(fi4, *a4)
                if o.kind() == "ok":
                    observe(ctx, ty, p, "%s/%s" % (kk, nm), w + ", given " + nm, bad, q.ref(o.okv()), exp, code)
                elif o.kind() in ("err", "panic"):
                    bad("%s/%s" % (kk, nm), w + ": refused when given " + nm)
                else:
                    ctx.unknown("%s/%s" % (kk, nm), w)
    oks(ctx, k, r, fi, args, what, judge)


def from_raw(ctx, ty, name, code, extra):
    ident = IDENT[ty]
    ked = sized(dict(shapes(ident, code))[name], ident)
    r = ctx.W.run()
    raw = vals.seq(ked)
    tail = {"": (), "text": tuple(b"-AABAA"), "json": tuple(b'{"v":"KERI10JSON000020_","d":""}'), "bytes": (0,), "any": symchars("tail", 5)}[extra]
    fi, args = new(ctx, ty, r, code=None if code == "E" else code, raw=Seq(raw.e + tuple(tail)))
    what = "%s::new from the bytes of a message (%s, code %s) followed by %s" % (ty, name, code, extra or "nothing")
    oks(ctx, "%s/raw/%s/%s/%s" % (ty, name, code, extra), r, fi, args, what,
        lambda p, kk, w, bad, v: observe(ctx, ty, p, kk, w, bad, p.run.ref(v), ked, code))


def conv(ctx, ty, how):
    ident = IDENT[ty]
    ked = dict(shapes(ident, "E"))["event"]
    want = sized(ked, ident)
    r = ctx.W.run()
    W = ctx.W
    fi = W.method(ty, "new_with_" + how)
    args = [r.ref(vals.val(ked)), opt(None), opt(None)] if how == "ked" else [r.ref(vals.seq(want))]
    oks(ctx, "%s/new_with_%s" % (ty, how), r, fi, args, "%s::new_with_%s" % (ty, how),
        lambda p, kk, w, bad, v: observe(ctx, ty, p, kk, w, bad, p.run.ref(v), want, "E"))


def pretty_text(x, ind=0):
    if isinstance(x, (list, tuple)) and x:
        out = [91]
        for i, y in enumerate(x):
            out += ([44] if i else []) + [10] + [32] * (2 * ind + 2) + pretty_text(y, ind + 1)
        return out + [10] + [32] * (2 * ind) + [93]
    if isinstance(x, dict) and x:
        out = [123]
        for i, (k, y) in enumerate(x.items()):
            out += ([44] if i else []) + [10] + [32] * (2 * ind + 2) + vals.esc(k) + [58, 32] + pretty_text(y, ind + 1)
        return out + [10] + [32] * (2 * ind) + [125]
    return vals.json(x)


def pretty(ctx, ty, name, n):
    """a readable rendering of the same fields in the same order, cut to at most the given number of bytes (default 1024) between characters"""
    ident = IDENT[ty]
    ked = dict(shapes(ident, "E"))[name]
    r = ctx.W.run()
    fi, args = new(ctx, ty, r, ked=vals.val(ked))
    t = pretty_text(sized(ked, ident))
    n_ = 1024 if n is None else len(t) + n if n < 0 else n
    cut = min(n_, len(t))
    while 0 < cut < len(t) and type(t[cut]) is int and 0x80 <= t[cut] < 0xc0:
        cut -= 1

    def judge(p, kk, w, bad, v):
        q = p.run
        o = q.call(ctx.W.trait_method(ty, "Sadder", "pretty"), q.ref(v), opt(None if n is None else n_))
        if o.kind() == "ok":
            same(ctx, p, kk + "/text", w, bad, q.deep(o.okv()), Seq(tuple(t[:cut])), "pretty()")
        elif o.kind() in ("err", "panic"):
            bad(kk + "/text", "%s: pretty() %s" % (w, "is refused" if o.kind() == "err" else "panics"))
        else:
            ctx.unknown(kk + "/text", w)
    oks(ctx, "%s/pretty/%s/%s" % (ty, name, n), r, fi, args, "%s (%s) shown in %s bytes" % (ty, name, "1024" if n is None else n_), judge)


def repopulate(ctx, ty, how, a, b):
    """an object of one message that is made to describe another one through the trait's own methods"""
    ident = IDENT[ty]
    sh = dict(shapes(ident, "E"))
    want = sized(sh[b], ident)
    r = ctx.W.run()
    fi, args = new(ctx, ty, r, ked=vals.val(sh[a]))

    def judge(p, kk, w, bad, v):
        q = p.run
        x = q.ref(v)
        m = lambda n: ctx.W.trait_method(ty, "Sadder", n)  # noqa: E731
        if how == "kind_and_self":
            q.call(m("set_ked"), x, q.ref(vals.val(sh[b])))
            o = q.call(m("populate_from_kind_and_self"), x, q.ref(S("JSON")))
        elif how == "ked":
            o = q.call(m("populate_from_ked"), x, q.ref(vals.val(sh[b])), opt(None))
        else:
            o = q.call(m("populate_from_raw"), x, q.ref(vals.seq(want)))
        if o.kind() == "ok":
            observe(ctx, ty, p, kk, w, bad, x, want, "E")
        elif o.kind() in ("err", "panic"):
            bad(kk + "/done", w + ": is refused")
        else:
            ctx.unknown(kk + "/done", w)
    oks(ctx, "%s/populate/%s/%s/%s" % (ty, how, a, b), r, fi, args, "%s (%s) made to hold (%s) by populate_from_%s" % (ty, a, b, how), judge)


def refused(ctx, ty, name, given):
    r = ctx.W.run()
    fi, args = new(ctx, ty, r, **given)
    errs(ctx, "%s/refused/%s" % (ty, name), r, fi, args, "%s::new of %s" % (ty, name))


def bads(ty):
    ident = IDENT[ty]
    other = IDENT["Creder" if ty == "Serder" else "Serder"]
    d = said()
    x = Seq(symchars("x", 9))
    v = vs(ident, ONE, ZERO)

    def both(name, ked, code=None):
        i = other if "other" in name else ident
        k = sized(ked, i) if "v" in ked else ked
        for how, g in (("fields", {"ked": vals.val(ked)}), ("bytes", {"raw": vals.seq(k)}), ("bytes with more after", {"raw": Seq(vals.seq(k).e + (88, 10))})):
            for kind in (None, "JSON"):
                for c in (None, "E") if code is None else (code,):
                    yield "%s (%s%s%s)" % (name, how, ", kind given" if kind else "", ", code %r given" % c if c and code is None else ""), dict(g, code=c, **({"kind": kind} if kind else {}))
    yield "nothing", {}
    yield from both("a message of the other kind", {"v": vs(other, ONE, ZERO), "d": d, "x": x})
    yield from both("a message without identifier", {"v": v, "x": x})
    yield from both("a message whose identifier is a number", {"v": v, "d": 5, "x": x})
    yield from both("a message whose identifier is null", {"v": v, "d": None, "x": x})
    yield from both("a message whose identifier is empty", {"v": v, "d": "", "x": x})
    yield from both("a message whose identifier is no material", {"v": v, "d": "hello", "x": x})
    yield from both("a message whose identifier is a key", {"v": v, "d": prims.forms("D", symbytes("k", 32))[0], "x": x})
    yield from both("a message whose identifier is truncated", {"v": v, "d": Seq(d.e[:-1]), "x": x})
    for c in ("F", "G", "H", "I", "0D", "0E", "0F", "0G"):
        yield from both("a message identified by %s under the default code" % c, {"v": v, "d": said(c), "x": x})
    for c in ("H", "0D", "D", "", "e"):
        yield from both("a message identified by E under code %r" % c, {"v": v, "d": d, "x": x}, c)
    yield from both("a message without version", {"d": "E" + "a" * 43, "x": "some text"})
    yield "fields in another kind", {"ked": vals.val({"v": v, "d": d, "x": x}), "kind": "CBOR"}
    yield "fields in no kind", {"ked": vals.val({"v": v, "d": d, "x": x}), "kind": "json"}
    yield "fields that are an array", {"ked": vals.val([v])}
    yield "fields that are null", {"ked": vals.val(None)}
    good = vals.seq(sized({"v": v, "d": d, "x": x}, ident))
    for n in (1, 2, 20, len(good.e) - 30):
        yield "bytes cut by %d" % n, {"raw": Seq(good.e[:-n])}
    for n in range(0, 30, 4):
        yield "%d bytes" % n, {"raw": Seq(good.e[:n])}
    ked = {"v": v, "d": d, "x": x}
    n = len(vals.json(ked))
    for dn in (-60, -2, -1, 1, 2, 1000):
        k = dict(ked, v="%s10JSON%06x_" % (ident, n + dn))
        yield "bytes whose version string says %+d" % dn, {"raw": Seq(vals.seq(k).e)}
        if dn > 0:
            yield "bytes whose version string says %+d with extra" % dn, {"raw": Seq(vals.seq(k).e + (88,) * (dn + 3))}
    for ver in ("11", "20", "00", "ff"):
        k = dict(ked, v="%s%sJSON%06x_" % (ident, ver, n))
        yield "bytes of version " + ver, {"raw": vals.seq(k)}
        yield "fields of version " + ver, {"ked": vals.val(k)}
    for kind in ("CBOR", "MGPK", "JSOM"):
        k = dict(ked, v="%s10%s%06x_" % (ident, kind, n))
        yield "bytes of kind " + kind, {"raw": vals.seq(k)}
        yield "fields of kind " + kind, {"ked": vals.val(k)}
    raw = good.e
    yield "bytes that are no JSON", {"raw": Seq(raw[:-1] + (93,))}
    yield "bytes that are not UTF-8", {"raw": Seq(raw[:-3] + (0xff,) + raw[-2:])}
    yield "an empty byte string", {"raw": Seq(())}


def check(ctx):
    NEAR[:] = lib.around(ctx.W, ("src/core/common.rs", "src/core/sadder.rs", "src/core/serder.rs", "src/core/creder.rs"), lo=100, hi=1 << 17)
    names = [n for n, _ in shapes("KERI", "E")]
    codes = ["E", "H", "0D", "0G"] if not ctx.thorough else list(prims.DIG)
    ctx.pmap(from_ked, [(ty, n, c, k) for ty in IDENT for n in names for c in codes for k in (None, "JSON") if c == "E" or k is None])
    ctx.pmap(from_raw, [(ty, n, c, e) for ty in IDENT for n in names for c in codes for e in ("", "text", "json", "any") if c == "E" or e == ""])
    ctx.pmap(conv, [(ty, h) for ty in IDENT for h in ("ked", "raw")])
    ctx.pmap(repopulate, [(ty, h, a, b) for ty in IDENT for h in ("kind_and_self", "ked", "raw")
                          for a, b in (("small", "long"), ("long", "small"), ("small", "event"), ("event", "nested"))])
    ctx.pmap(pretty, [(ty, n, k) for ty in IDENT for n in names for k in (None, 0, 1, 10, 100, -1, -2, -3, -4, -5, -6, -7, -8, 5000)])
    ctx.pmap(refused, [(ty, n, g) for ty in IDENT for n, g in bads(ty)])
