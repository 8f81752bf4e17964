"""Self-addressing identifiers bind the whole content: the SAID is the named digest of the message's own serialization with the SAID
field filled with place holders (and a version string carrying the right size), nothing else of the message changes, verification accepts exactly
the message it was made for and rejects every altered one."""
import digs
import lib
import models
import prims
import vals
from checks import p17
from checks.p21 import vs
from checks.p22 import txt
from domain import Chunk, S, Seq, symbytes
from lib import symchars
from matterlib import opt
from pathlib_ import bools, errs, oks, same

RULE = "one obligation per (digest code, message shape, operation); digests are uninterpreted functions, message texts unknown characters of fixed length"
FLOOR = 250
ONE, ZERO = (1, 0, 0, 0), (0, 0, 0, 0)


def fs(code):
    return len(prims.forms(code, digs.digest(code, S("x")))[0].e)


def shapes():
    x = Seq(symchars("x", 9))
    v = vs("KERI", ONE, ZERO)
    return {
        "versioned": ({"v": v, "t": "icp", "d": "", "i": x, "s": "0", "k": [Seq(symchars("k", 44))], "n": []}, "d"),
        "acdc": ({"v": vs("ACDC", ONE, ZERO), "d": "", "i": x, "a": {"d": "", "n": x, "l": [True, None, 7]}}, "d"),
        "plain": ({"d": "", "a": txt("a"), "n": {"m": [txt("b"), 5], "o": None}}, "d"),
        "labelled": ({"$id": "", "title": txt("a"), "d": txt("d")}, "$id"),
        "last": ({"a": txt("a"), "b": {"d": txt("n")}, "d": "old"}, "d"),
        "number": ({"a": txt("a"), "d": 5}, "d"),
        "only": ({"d": ""}, "d"),
        "prefix": ({"v": v, "t": "icp", "d": x, "i": "", "s": "0"}, "i"),
        "prior": ({"v": v, "t": "icp", "d": Seq(symchars("old", 44)), "i": x}, "d"),
        "sparse": ({"z": None, "d": "", "e": "", "l": [], "o": {}, "f": False, "n": 0, "id": x, "$id": x, "i": x, "y": None}, "d"),
        "similar": ({"ab": txt("a"), "d": "", "a": x, "dd": 1, "abc": [txt("b")], "b": {"a": 1, "b": x}, "c": 2, "ba": 3}, "d"),
        "dollar": ({"v": v, "$id": "", "d": x, "i": x, "a": [x]}, "$id"),
        "odd texts": ({"d": "", **{t: [t] for t in lib.ODD}, "x": x}, "d"),
        "odd labels": ({"": 1, "d": "", "\u00e9": x, "a b": 2, '"': 3, "V": x, "D": x}, "d"),
    }


def dummied(sad, label, code):
    """the message the digest is computed over, as python data"""
    d = dict(sad)
    d[label] = "#" * fs(code)
    if "v" in d:
        n = len(vals.json(d))
        ident = bytes(d["v"].e[:4]).decode()
        d["v"] = "%s10JSON%06x_" % (ident, n)
    return d


def expect(sad, label, code, ignore=()):
    d = dummied(sad, label, code)
    cut = {k: v for k, v in d.items() if k not in ignore}
    raw = digs.digest(code, vals.seq(cut))
    d = dict(d)
    d[label] = prims.forms(code, raw)[0]
    return raw, d


def strs(r, xs):
    return opt(r.ref(Seq(tuple(r.s(x) for x in xs)))) if xs else opt(None)


def saidify(ctx, code, shape, ignore=(), kind=None, implicit=False):
    W = ctx.W
    sad, label = shapes()[shape]
    raw, want = expect(sad, label, code, ignore)
    r = W.run()
    fi = W.method("Saider", "saidify")
    k = "saidify/%s/%s%s%s" % (code, shape, "/ignoring-" + "-".join(ignore) if ignore else "", "/defaults" if implicit else "")
    what = "Saider::saidify of a %s message with code %s%s" % (shape, code, " ignoring " + ", ".join(ignore) if ignore else "")
    lab = opt(None if implicit else r.s(label))
    args = [r.ref(vals.val(sad)), opt(None if implicit else r.s(code)), opt(r.s(kind) if kind else None), lab, strs(r, ignore)]

    def judge(p, kk, w, bad, v):
        q = p.run
        x = q.ref(v.f[0])
        same(ctx, p, kk + "/code", w, bad, q.get(x, "Saider", "code"), S(code), "the code of the saider")
        same(ctx, p, kk + "/raw", w, bad, q.get(x, "Saider", "raw"), raw, "the digest")
        same(ctx, p, kk + "/sad", w, bad, v.f[1], vals.val(want), "the resulting message")
    oks(ctx, k, r, fi, args, what, judge)


def derive(ctx, code, shape, implicit):
    """Saider::new over a message: code given, or taken from the digest already in the message"""
    W = ctx.W
    sad, label = shapes()[shape]
    sad = dict(sad)
    if implicit == "from-message":
        sad[label] = prims.forms(code, symbytes("oldraw", digs.SIZE[code]))[0]
    raw, _ = expect(sad, label, code)
    r = W.run()
    fi = W.method("Saider", "new_with_sad")
    k = "new/%s/%s/%s" % (code, shape, implicit)
    what = "Saider::new over a %s message with code %s (%s)" % (shape, code, implicit)
    args = [r.ref(vals.val(sad)), opt(r.s(label)), opt(None), opt(None), opt(r.s(code) if implicit == "given" else None)]

    def judge(p, kk, w, bad, v):
        q = p.run
        x = q.ref(v)
        same(ctx, p, kk + "/code", w, bad, q.get(x, "Saider", "code"), S(code), "the code of the saider")
        same(ctx, p, kk + "/raw", w, bad, q.get(x, "Saider", "raw"), raw, "the digest")
    oks(ctx, k, r, fi, args, what, judge)


class Ideal:
    """an idealised hash: different inputs have different digests"""

    def __enter__(self):
        seen = {}

        def f(tag, n, ins):
            if tag in set(digs.TAGS.values()):
                i = seen.setdefault((tag, ins), len(seen))
                return p17.const(tag, n, i + 1)
            return None
        models.INTERP = f
        return self

    def __exit__(self, *a):
        models.INTERP = None


def concrete(shape):
    v = "KERI10JSON000000_"
    return {
        "versioned": ({"v": v, "t": "icp", "d": "", "i": "EAAA", "s": "0", "k": ["DAAA", "DBBB"], "n": []}, "d"),
        "acdc": ({"v": "ACDC10JSON000000_", "d": "", "i": "EAAA", "a": {"d": "", "n": "name", "l": [True, None, 7]}}, "d"),
        "plain": ({"d": "", "a": "text", "n": {"m": ["b", 5], "o": None}}, "d"),
        "labelled": ({"$id": "", "title": "text", "d": "other"}, "$id"),
        "dollar": ({"v": v, "$id": "", "d": "old", "i": "EAAA", "x": None}, "$id"),
        "sparse": ({"z": None, "d": "", "e": "", "l": [], "o": {}, "f": False, "n": 0}, "d"),
    }[shape]


def alterations(sad, label):
    """every single change of a message outside the label: changed, removed, added and reordered fields, nested ones too"""
    out = []

    def leaves(x, path):
        if isinstance(x, dict):
            for k in x:
                yield from leaves(x[k], path + (k,))
            yield path, None
        elif isinstance(x, list):
            for i in range(len(x)):
                yield from leaves(x[i], path + (i,))
            yield path, None
        else:
            yield path, x

    def setp(x, path, v):
        if not path:
            return v
        if isinstance(x, dict):
            return {k: setp(y, path[1:], v) if k == path[0] else y for k, y in x.items()}
        return [setp(y, path[1:], v) if i == path[0] else y for i, y in enumerate(x)]

    def getp(x, path):
        for k in path:
            x = x[k]
        return x
    for path, x in leaves(sad, ()):
        if path and path[0] in (label, "v"):
            continue
        name = ".".join(map(str, path)) or "message"
        y = getp(sad, path)
        if isinstance(y, dict):
            out.append((name + " gets a field", setp(sad, path, dict(list(y.items()) + [("zz", 1)]))))
            ks = [k for k in y if not (path == () and k in (label, "v"))]
            for k in ks:
                out.append(("%s loses %s" % (name, k), setp(sad, path, {a: b for a, b in y.items() if a != k})))
            if len(ks) > 1:
                a, b = ks[-2:]
                items = list(y.items())
                i, j = [n for n, (k, _) in enumerate(items) if k == a][0], [n for n, (k, _) in enumerate(items) if k == b][0]
                items[i], items[j] = items[j], items[i]
                out.append(("%s has %s and %s swapped" % (name, a, b), setp(sad, path, dict(items))))
            for k in ks:
                out.append(("%s has %s renamed" % (name, k), setp(sad, path, {(a + "x" if a == k else a): b for a, b in y.items()})))
        elif isinstance(y, list):
            out.append((name + " gets an element", setp(sad, path, y + ["zz"])))
            if y:
                out.append((name + " loses an element", setp(sad, path, y[:-1])))
            if len(y) > 1:
                out.append((name + " is reversed", setp(sad, path, y[::-1])))
        else:
            for z in (y + "x" if isinstance(y, str) else "x", 8, None, True, ""):
                if z is not y and z != y or type(z) is not type(y):
                    out.append(("%s becomes %r" % (name, z), setp(sad, path, z)))
    return out


def verify(ctx, code, shape):
    W = ctx.W
    sad, label = concrete(shape)
    fi = W.method("Saider", "verify")
    with Ideal():
        raw, good = expect_c(sad, label, code)

        def ask(name, message, want, prefixed=None, versioned=None, raw_=raw, ignore=()):
            r = W.run()
            x = r.ref(prims.new(r, "Saider", code=S(code), raw=raw_).okv())
            bools(ctx, "verify/%s/%s/%s" % (code, shape, name), r, fi,
                  [x, r.ref(vals.val(message)), opt(prefixed), opt(versioned), opt(None), opt(r.s(label)), strs(r, ignore)], want,
                  "Saider::verify (code %s, %s message): %s" % (code, shape, name))
        for pre in (None, 0, 1):
            for ver in (None, 0, 1):
                ask("unaltered/%s-%s" % (pre, ver), good, True, pre, ver)
        for i in (0, len(raw.e) // 2, len(raw.e) - 1):
            e = list(raw.e)
            e[i] ^= 1
            ask("another digest (byte %d)" % i, good, False, None, None, Seq(tuple(e)))
        if shape == "plain":
            for name, x in digs.near(code, raw, ctx.thorough):
                ask("another digest, " + name, good, False, 0, None, x)
        for name, m in alterations(good, label):
            ask(name, m, False, 1, 1)
        ask("the label is altered and compared", dict(good, **{label: "E" + "A" * (fs(code) - 1)}), False, 1, None)
        said = good[label]
        for name, other in (("extended", said + "A"), ("cut", said[:-1]), ("in lower case", said.lower()), ("with its last character changed", said[:-1] + ("A" if said[-1] != "A" else "B")),
                            ("preceded by a blank", " " + said), ("followed by a blank", said + " "), ("place holders", "#" * len(said)), ("no text", 5), ("null", None)):
            if other != said:
                r = W.run()
                x = r.ref(prims.new(r, "Saider", code=S(code), raw=raw).okv())
                bools(ctx, "verify/%s/%s/the label is %s" % (code, shape, name), r, fi,
                      [x, r.ref(vals.val(dict(good, **{label: other}))), opt(1), opt(1), opt(None), opt(r.s(label)), strs(r, ())], False,
                      "Saider::verify (code %s, %s message): the label is %s and compared" % (code, shape, name), err_ok=not isinstance(other, str))
        ask("the label is emptied and compared", dict(good, **{label: ""}), False, 1, None)
        ask("the label is missing and compared", {k: v for k, v in good.items() if k != label}, False, 1, None)
        if "v" in good:
            vv = good["v"]
            for name, other in (("size is one less", vv[:10] + "%06x_" % (int(vv[10:16], 16) - 1)), ("size is one more", vv[:10] + "%06x_" % (int(vv[10:16], 16) + 1)),
                                ("size is zero", vv[:10] + "000000_"), ("size is huge", vv[:10] + "ffffff_"), ("size is in upper case or longer", vv[:10] + "0" + vv[10:])):
                if other != vv:
                    for pre in (None, 0, 1):
                        ask("the %s in the version string (%s)" % (name, pre), dict(good, v=other), False, pre, 1)
                        ask("the %s in the version string (%s, by default)" % (name, pre), dict(good, v=other), False, pre, None)
            ask("the size in the version string is wrong but not compared", dict(good, v=vv[:10] + "000001_"), True, 1, 0)
            ask("the size in the version string is altered", dict(good, v=good["v"][:10] + "000001_"), False)
            ask("the version is unsupported", dict(good, v=good["v"][:4] + "11" + good["v"][6:]), False)
            ask("the version string is no version string", dict(good, v="x"), False)
            ask("the version is removed", {k: v for k, v in good.items() if k != "v"}, False)


def expect_c(sad, label, code, ignore=()):
    d = dummied({k: Seq(tuple(v.encode())) if k == "v" else v for k, v in sad.items()}, label, code)
    raw = digs.digest(code, vals.seq({k: v for k, v in d.items() if k not in ignore}))
    t = prims.forms(code, raw)[0]
    d[label] = "".join(map(chr, t.e))
    return raw, d


def ignoring(ctx, code):
    """ignored fields may change freely, all others may not"""
    W = ctx.W
    fi = W.method("Saider", "verify")
    sad = {"d": "", "ua": 1, "a": "text", "u": "unsigned", "w": [1], "wu": {"u": 1}, "z": 9}
    ig = ("u", "w", "absent")
    with Ideal():
        raw, good = expect_c(sad, "d", code, ig)

        def ask(name, message, want):
            r = W.run()
            x = r.ref(prims.new(r, "Saider", code=S(code), raw=raw).okv())
            bools(ctx, "verify/%s/ignoring/%s" % (code, name), r, fi,
                  [x, r.ref(vals.val(message)), opt(1), opt(1), opt(None), opt(r.s("d")), strs(r, ig)], want, "Saider::verify ignoring u and w: %s" % name)
        x_ = None
        for pre in (None, 0, 1):
            for ver in (None, 0, 1):
                r = W.run()
                x_ = r.ref(prims.new(r, "Saider", code=S(code), raw=raw).okv())
                for nm, m, want in (("unaltered", good, True), ("ignored field altered", dict(good, u="x"), True), ("other field altered", dict(good, z=8), False)):
                    bools(ctx, "verify/%s/ignoring/%s/%s-%s" % (code, nm, pre, ver), r, fi, [x_, r.ref(vals.val(m)), opt(pre), opt(ver), opt(None), opt(r.s("d")), strs(r, ig)], want,
                          "Saider::verify ignoring u and w, prefixed %s, versioned %s: %s" % (pre, ver, nm))
        ask("ignored field altered", dict(good, u="other"), True)
        ask("ignored field removed", {k: v for k, v in good.items() if k != "w"}, True)
        ask("other field altered", dict(good, a="tex"), False)
        ask("field of a longer label altered", dict(good, ua=2), False)
        ask("field of a longer label removed", {k: v for k, v in good.items() if k != "wu"}, False)
        ask("nested field of an ignored label altered", dict(good, wu={"u": 2}), False)
        ask("others reordered", {k: good[k] for k in ("d", "z", "a", "u", "w", "wu", "ua")}, False)
        ask("ignored field moved", {k: good[k] for k in ("u", "d", "ua", "a", "wu", "z", "w")}, True)
        ask("other field added", dict(good, b=1), False)


def bad(ctx, name):
    W = ctx.W
    r = W.run()
    sad = vals.val({"d": "", "a": 1})
    sy = W.method("Saider", "saidify")
    nw = W.method("Saider", "new_with_sad")
    n = opt(None)
    if name.startswith("code "):
        c = name[5:]
        errs(ctx, "refused/saidify/" + name, r, sy, [r.ref(sad), opt(r.s(c)), n, n, n], "saidify with the " + name)
        errs(ctx, "refused/new/" + name, W.run() if False else r, nw, [r.ref(sad), n, n, n, opt(r.s(c))], "Saider::new over a message with the " + name)
        return
    m = {"no label": ({"a": 1}, "d"), "other label": ({"d": ""}, "x"), "an array": ([1], "d"), "null": (None, "d"), "a text": ("d", "d"),
         "CBOR version": ({"v": "KERI10CBOR000000_", "d": ""}, "d"), "future version": ({"v": "KERI20JSON000000_", "d": ""}, "d"),
         "version not a string": ({"v": 1, "d": ""}, "d")}[name]
    args = [r.ref(vals.val(m[0])), n, n, opt(r.s(m[1])), n]
    errs(ctx, "refused/saidify/" + name, r, sy, args, "saidify of a message: " + name)
    errs(ctx, "refused/new/" + name, r, nw, [r.ref(vals.val(m[0])), opt(r.s(m[1])), n, n, n], "Saider::new over a message: " + name)
    if name not in ("no label", "other label"):
        # a message whose identifier cannot be computed is not verified
        x = r.ref(prims.new(r, "Saider", code=S("E"), raw=symbytes("raw", 32)).okv())
        bools(ctx, "refused/verify/" + name, r, W.method("Saider", "verify"), [x, r.ref(vals.val(m[0])), n, n, n, opt(r.s(m[1])), n], False,
              "Saider::verify of a message: " + name, err_ok=True)


def placeholder(ctx, name, text):
    """the code is taken from a digest already in the message: any other text there is refused"""
    W = ctx.W
    n = opt(None)
    r = W.run()
    errs(ctx, "refused/new/label " + name, r, W.method("Saider", "new_with_sad"), [r.ref(vals.val({"d": text, "a": 1})), n, n, n, n], "Saider::new over a message whose label is %s" % name)


def kinds(ctx, kind):
    W = ctx.W
    n = opt(None)
    r = W.run()
    for m in ({"d": "", "a": 1}, {"v": "KERI10JSON000000_", "d": ""}):
        errs(ctx, "refused/saidify/kind-%s/%s" % (kind, "v" in m), r, W.method("Saider", "saidify"), [r.ref(vals.val(m)), n, opt(r.s(kind)), n, n], "saidify with kind %r" % kind)


def check(ctx):
    import spec
    codes = list(digs.TAGS)
    ctx.pmap(saidify, [(c, s) for c in codes for s in shapes()] + [("E", "similar", ig) for ig in (("a",), ("ab", "b"), ("b",), ("d",), ("ba", "a"), ("A", "dd"))] + [("E", s, ("v",)) for s in ("versioned", "acdc", "dollar")]
             + [("E", "sparse", ("z",)), ("E", "sparse", ("l", "o")), ("E", "versioned", ("t",)), ("E", "versioned", ("d", "v")), ("E", "dollar", ("d",))] + [("E", "plain", ("a",)), ("E", "plain", ("a", "n", "zz")), ("E", "versioned", ("k",)), ("F", "acdc", ("a",))]
             + [("E", "versioned", (), "JSON"), ("E", "plain", (), "JSON"), ("E", "versioned", (), None, True), ("E", "plain", (), None, True)])
    ctx.pmap(derive, [(c, s, h) for c in codes for s in ("versioned", "plain", "labelled", "prior") for h in ("given", "from-message")])
    ctx.pmap(verify, [(c, s) for c in (codes if ctx.thorough else ("E", "F", "0G", "I")) for s in ("versioned", "acdc", "plain", "labelled")]
             + [(c, s) for c in ("E", "0G") for s in ("dollar", "sparse")])
    ctx.pmap(ignoring, [(c,) for c in codes])
    others = [c for c in spec.MATTER if c not in digs.TAGS]
    ctx.pmap(bad, [("code " + c,) for c in others + ["", "Z", "e", "EE"]] + [(n,) for n in ("no label", "other label", "an array", "null", "a text", "CBOR version", "future version", "version not a string")])
    ctx.pmap(kinds, [("CBOR",), ("MGPK",), ("json",), ("",)])

    ctx.pmap(placeholder, [("place holders", "#" * 44), ("one place holder", "#"), ("a blank", " "), ("a word", "digest"), ("a shortened digest", "E" + "A" * 42), ("a key", "D" + "A" * 43), ("a non-transferable key", "B" + "A" * 43),
                           ("a signature", "0B" + "A" * 86), ("a blank and a digest", " E" + "A" * 43), ("a number", 5), ("null", None), ("a list", ["E" + "A" * 43]), ("not ASCII", "\u00e9" * 44), ("a lead byte", "E")])
