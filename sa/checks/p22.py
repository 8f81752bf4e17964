"""Serialization is canonical: fields in insertion order, compact, standard JSON escapes and number forms; a sized message differs
from its fields only in the version string, whose size is the exact byte length of the serialization; unsupported versions, kinds and
messages without a leading version string are refused."""
import itertools
import lib
import vals
from domain import Agg, Chunk, S, Seq, mkbits, symbit
from lib import symchars
from matterlib import opt
from pathlib_ import errs, oks, same
from checks.p21 import TAIL, field, hexes, vs

RULE = "one obligation per (value shape, observed text); scalars and texts are unknown where possible; reference: RFC 8259 text in insertion order without whitespace"
FLOOR = 120


def txt(n):
    return Seq((Chunk(("inp", n)),))


NUM = vals.I64(mkbits(tuple(symbit("n", i) for i in range(64))))


def shapes():
    out = {"null": None, "true": True, "false": False, "any-integer": NUM, "any-text": txt("t"), "empty-text": "", "empty-array": [], "empty-object": {}}
    for n in (0, 1, -1, 9, 10, -10, (1 << 63) - 1, -(1 << 63), (1 << 53) + 1, 1 << 32):
        out["int/%d" % n] = n
    for f in (0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 1e15, 1e16, 1e17, 1e-5, 1e-6, 123456789.125, 1.7976931348623157e308, 5e-324):
        out["float/%r" % f] = f
    for c in range(0, 128):
        out["char/%d" % c] = chr(c)
    for s in ("é", "ÿ", "\u2028", "\u2029", "\u20ac", "\U0001F600", "a\u0000b", "/", "\\u0041", "</script>"):
        out["text/%s" % s.encode("unicode_escape").decode()] = s
    for p in itertools.permutations("bac"):
        out["order/" + "".join(p)] = {k: txt("v" + k) for k in p}
    out["order/nested"] = {"z": {"y": NUM, "x": [txt("x"), None, True]}, "a": [{"q": 1, "p": 2}, []], "m": txt("m")}
    out["order/many"] = {"k%d" % ((i * 37) % 101): txt("v%d" % i) for i in range(100)}
    for i, t in enumerate(('\u00e9"', "\u00e9\n", "\u20ac\\", "\U0001F600\u0001", '"\u00ff"', "\u007f\u0080\u009f\u00a0", "\ud7ff\ue000\uffff", "\ufeff", "/\u00e9/", "\t\u00e9\r\u0008\u000c")):
        out["mixed/%d" % i] = t
        out["mixed key/%d" % i] = {t: t}
    for i, t in enumerate(lib.ODD):
        out["plain/%d" % i] = {t: [t], "t": t}
    out["key/any"] = vals.Pairs((txt("k"), txt("v")), ("b", 1))
    for i, k in enumerate(("", '"', "\\", "\n", "\u0001", "é", " ", "a b", "\t:")):
        out["key/%d" % i] = {k: NUM, "z": None}
    out["array/one"] = [NUM]
    out["array/many"] = [NUM, txt("t"), None, True, False, 1.5, [], {}, [[1], {"a": [2]}]]
    return out


def text(ctx, name):
    W = ctx.W
    x = shapes()[name]
    r = W.run()
    fi = W.method("data::Value", "to_json")
    what = "to_json of %s" % name
    oks(ctx, "text/" + name, r, fi, [r.ref(vals.val(x))], what, lambda p, k, w, bad, v: same(ctx, p, k + "/is", w, bad, v, vals.seq(x), "the JSON text"))


def ked(n, ident="KERI"):
    """a message whose serialization is n bytes long (n >= 40): unknown version-string size, unknown text of the missing length"""
    d = {"v": vs(ident, (1, 0, 0, 0), (0, 0, 0, 0)), "t": "icp", "x": Seq(())}
    base = len(vals.json(d))
    d["x"] = Seq(symchars("x", n - base)) if n < 300000 else Seq((65,) * (n - base))
    return d


ODD = {"accents": {"x": "\u00e9\u20ac\U0001F600"}, "escapes": {"x": '"\n\\\u0001/'}, "keys": {"\u00e9\n\"": [{"\u20ac": None}]}, "both": {"\u20ac": "\u00e9\n" * 40, "y": [1.5, -7, True]},
       "many accents": {"x": "\u00e9" * 2000}, "version look-alike": {"w": "KERI10JSON00ffff_", "x": "ACDC10JSON000001_"}, "a kilobyte": {"x": "A" * 1000}}


def size(ctx, n, ident, kind, odd=None):
    W = ctx.W
    d = ked(n, ident) if odd is None else {"v": vs(ident, (1, 0, 0, 0), (0, 0, 0, 0)), **ODD[odd]}
    if odd:
        n = len(vals.json(d))
    r = W.run()
    fi = W.fn("core::common::sizeify")
    want = dict(d)
    want["v"] = "%s10JSON%06x_" % (ident, n)
    k = "size/%s/%s/%s" % (ident, odd or n, kind)
    what = "sizeify of a %s message of %d bytes (kind %s)" % (ident, n, kind)

    def judge(p, kk, w, bad, v):
        ty = "SizeifyResult"
        same(ctx, p, kk + "/raw", w, bad, field(W, ty, v, "raw"), vals.seq(want), "the serialization")
        same(ctx, p, kk + "/ked", w, bad, field(W, ty, v, "ked"), vals.val(want), "the message")
        same(ctx, p, kk + "/kind", w, bad, field(W, ty, v, "kind"), S("JSON"), "the kind")
        same(ctx, p, kk + "/ident", w, bad, field(W, ty, v, "ident"), S(ident), "the identifier")
        vv = field(W, ty, v, "version")
        for f, x in (("major", 1), ("minor", 0)):
            same(ctx, p, kk + "/" + f, w, bad, field(W, "common::Version", vv, f), x, "the %s version" % f)
    oks(ctx, k, r, fi, [r.ref(vals.val(d)), opt(r.s(kind) if kind else None)], what, judge)


def size_bad(ctx, name, d, kind=None):
    W = ctx.W
    r = W.run()
    errs(ctx, "size-refuses/" + name, r, W.fn("core::common::sizeify"), [r.ref(vals.val(d)), opt(None if kind is None else r.s(kind))], "sizeify of " + name)


def check(ctx):
    ctx.pmap(text, [(n,) for n in shapes()])
    ns = [60, 64, 127, 128, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537]
    if ctx.thorough:
        ns += list(range(58, 130)) + [999, 1000, 1001, 9999, 10000, 99999, 100000, 131071, 131072, 1048575, 1048576]
    ns += [n for n in lib.around(ctx.W, ("src/core/common.rs", "src/core/sadder.rs", "src/data.rs"), lo=60, hi=200000) if n not in ns]
    ctx.pmap(size, [(n, i, k) for n in ns for i in ("KERI", "ACDC") for k in (None, "JSON") if not (k and n > 300)])
    ctx.pmap(size, [(n, "KERI", None) for n in ((1 << 20) + 1, (1 << 21) + 5)])
    if ctx.thorough:
        ctx.pmap(size, [((1 << 22) + 3, "ACDC", None), ((1 << 24) - 1, "KERI", None)])
        ctx.pmap(size_bad, [("a message of 16777216 bytes, more than six digits say", ked(1 << 24))])
    ctx.pmap(size, [(0, i, k, o) for o in ODD for i in ("KERI", "ACDC") for k in (None, "JSON")])
    bad = []
    one, zero = (1, 0, 0, 0), (0, 0, 0, 0)
    for b in range(4):
        hi = tuple(1 if j == b else symbit("q", j) for j in range(4))
        if b:
            bad.append(("a message of any major version with bit %d" % b, {"v": vs("KERI", hi, zero), "t": "icp"}))
        bad.append(("a message of any minor version with bit %d" % b, {"v": vs("KERI", one, hi), "t": "icp"}))
    bad.append(("a message of major version 0", {"v": vs("KERI", zero, zero), "t": "icp"}))
    good = vs("KERI", one, zero)
    bad += [("a message without a version", {"t": "icp"}), ("a message whose version is a number", {"v": 1}), ("a message whose version is null", {"v": None}),
            ("a message with an empty version", {"v": ""}), ("a message of kind CBOR", {"v": vs("KERI", one, zero, "CBOR")}),
            ("a message of an unknown identifier", {"v": vs("XXXX", one, zero)}), ("an array", [good]), ("a text", good), ("null", None),
            ("a message whose version is not the first field", {"t": "icp", "v": good}),
            ("a message whose version follows a long field", {"x": "some lower case text", "v": good})]
    for k in ("CBOR", "MGPK", "", "json"):
        bad.append(("a message to be written as %r" % k, {"v": good, "t": "icp"}, k))
    ctx.pmap(size_bad, bad)
