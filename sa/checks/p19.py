"""Identifier prefixes are derived from inception events exactly and verify exactly the events they belong to: basic prefixes are the one
signing key, non-transferable ones only with empty next keys, witnesses and anchors; self-addressing ones are the digest of the event with
its identifier fields filled with place holders."""
import digs
import prims
import spec
import vals
from checks.p18 import Ideal, alterations, fs
from checks.p21 import vs
from domain import S, Seq, symbytes
from lib import symchars
from matterlib import opt
from pathlib_ import bools, errs, oks, same

RULE = "one obligation per (prefix code, event, operation); keys, texts and digests are unknown, digests injective functions of their input in verification"
FLOOR = 400
ONE, ZERO = (1, 0, 0, 0), (0, 0, 0, 0)
NON = ("B", "1AAA", "1AAI")
TRANS = ("D", "1AAB", "1AAJ")
ILKS = ("icp", "dip", "vcp")
DIGS = tuple(digs.TAGS)


def key(code, name="key"):
    raw = symbytes(name, prims.nraw(code))
    return prims.forms(code, raw)[0], raw


def event(code=None, k=None, **f):
    d = {"v": vs("KERI", ONE, ZERO), "t": "icp", "d": "", "i": "", "s": "0", "kt": "1", "k": [key(code)[0]] if k is None else k,
         "nt": "0", "n": [], "bt": "0", "b": [], "c": [], "a": []}
    d.update(f)
    return {k: v for k, v in d.items() if v is not ...}


def mk(W):
    return W.method("Prefixer", "new_with_ked")


def args(r, ked, code=None, allows=None):
    return [r.ref(vals.val(ked)), opt(r.ref(Seq(tuple(r.s(a) for a in allows))) if allows is not None else None), opt(r.s(code) if code else None)]


def holds(ctx, k, r, ked, code, what, raw, given=None, allows=None):
    def judge(p, kk, w, bad, v):
        q = p.run
        x = q.ref(v)
        same(ctx, p, kk + "/code", w, bad, q.get(x, "Prefixer", "code"), S(code), "the code of the prefix")
        same(ctx, p, kk + "/raw", w, bad, q.get(x, "Prefixer", "raw"), raw, "the raw material of the prefix")
    oks(ctx, k, r, mk(ctx.W), args(r, ked, given, allows), what, judge)


def basic(ctx, code):
    W = ctx.W
    t, raw = key(code)
    full = [prims.forms("D", symbytes("other", 32))[0]]
    dig = [prims.forms("E", symbytes("other", 32))[0]]
    non = code in NON

    def good(name, ked, **o):
        holds(ctx, "derive/%s/%s" % (code, name), W.run(), ked, code, "Prefixer of an event, code %s: %s" % (code, name), raw, **o)

    def refuse(name, ked, given=code, **o):
        r = W.run()
        errs(ctx, "derive/%s/%s" % (code, name), r, mk(W), args(r, ked, given, **o), "Prefixer of an event, code %s: %s" % (code, name))
    for ilk in ILKS:
        good(ilk, event(code, t=ilk), given=code)
        good(ilk + ", code from i", event(code, t=ilk, i=key(code, "old")[0]))
    good("allowed", event(code), given=code, allows=["E", code])
    good("no codes to allow", event(code), given=code, allows=[])
    good("allowed, code from i", event(code, i=key(code, "old")[0]), allows=[code])
    refuse("not allowed", event(code), allows=[c for c in NON + TRANS if c != code])
    refuse("longer codes allowed", event(code), allows=[code + "A", code + code])
    refuse("empty code allowed", event(code), allows=["", "#"])
    refuse("not allowed, code from i", event(code, i=key(code, "old")[0]), None, allows=["E"])
    refuse("i and k of different codes", event(code, i=key(NON[0] if non and code != NON[0] else TRANS[0] if code != TRANS[0] else TRANS[1], "old")[0]), None)
    for n in ("n", "b", "a"):
        for what, v, empty in (("absent", ..., True), ("an empty list", [], True), ("an empty text", "", True), ("a list", dig if n == "n" else full if n == "b" else [{"i": "x"}], False),
                               ("two elements", dig * 2, False), ("a text", dig[0], False),
                               ("a number", 5, False), ("true", True, False), ("a map", {"x": "y"}, False), ("a list of an empty text", [""], False), ("a list of an empty list", [[]], False),
                               ("a list of a null", [None], False), ("a blank", " ", False)):
            name = "%s is %s" % (n, what)
            ked = event(code, **{n: v})
            if non and not empty:
                refuse(name, ked)
            else:
                good(name, ked, given=code)
    for c in NON + TRANS:
        if c != code:
            refuse("a key of code " + c, event(c))
    refuse("a digest for a key", event(k=dig))
    refuse("no keys", event(k=[]))
    refuse("two keys", event(k=[t, t]))
    refuse("keys absent", event(k=...))
    refuse("keys a text", event(k=t))
    refuse("key a number", event(k=[5]))
    refuse("key null", event(k=[None]))
    refuse("key a list", event(k=[[t]]))
    refuse("key empty", event(k=[""]))
    refuse("key truncated", event(k=[Seq(t.e[:-1])]))
    for ilk in ("rot", "ixn", "drt", "rct", "ICP", "", "ic", "icpx", "vrt", "iss"):
        refuse("event type %r" % ilk, event(code, t=ilk))
    refuse("no event type", event(code, t=...))
    refuse("event type a number", event(code, t=1))
    refuse("no i to take the code from", event(code, i=...), None)
    refuse("empty i to take the code from", event(code, i=""), None)
    refuse("number i to take the code from", event(code, i=1), None)


def self_(ctx, code):
    """self-addressing prefixes"""
    W = ctx.W
    n = fs(code)

    def raw(ked):
        d = dict(ked)
        d["i"] = d["d"] = "#" * n
        d["v"] = "KERI10JSON%06x_" % len(vals.json(d))
        return digs.digest(code, vals.seq(d))

    def good(name, ked, **o):
        holds(ctx, "derive/%s/%s" % (code, name), W.run(), ked, code, "Prefixer of an event, code %s: %s" % (code, name), raw(ked), **o)

    def refuse(name, ked, given=code, **o):
        r = W.run()
        errs(ctx, "derive/%s/%s" % (code, name), r, mk(W), args(r, ked, given, **o), "Prefixer of an event, code %s: %s" % (code, name))
    c = lambda x, k: Seq(symchars(x, k))  # noqa: E731
    base = event("D", d=c("d", 44), i=c("i", 44))
    for ilk in ILKS:
        good(ilk, dict(base, t=ilk), given=code)
    good("empty identifiers", event("D"), given=code)
    good("many keys", event(k=[c("k%d" % i, 44) for i in range(3)], n=[c("n", 44)], b=[c("b", 44)], a=[{"i": c("a", 5)}], bt="1"), given=code)
    good("non-transferable key", event("B"), given=code)
    good("code from i", event("D", i=prims.forms(code, symbytes("old", prims.nraw(code)))[0]))
    good("allowed", base, given=code, allows=[code])
    for ilk in ILKS:
        good("delegated, of type " + ilk, dict(base, t=ilk, di=c("di", 44)), given=code)
        good("with other fields, of type " + ilk, dict(base, t=ilk, di="", ii=c("ii", 44), p=c("p", 44), A=[], dd={"d": c("dd", 4), "i": c("ddi", 3), "v": c("ddv", 17)}), given=code)
        good("with identifiers among the others, of type " + ilk, {k: base[k] for k in ("v", "i", "t", "k", "s", "n", "d", "a") if k != "t"} | {"t": ilk}, given=code)
    good("i absent", event("D", d=c("d", 44), i=...), given=code)
    good("d absent", event("D", i=c("i", 44), d=...), given=code)
    refuse("longer codes allowed", base, allows=[code + "A"])
    good("identifiers not texts", event("D", d=5, i=None), given=code)
    refuse("not allowed", base, allows=[x for x in DIGS if x != code])
    refuse("no version", event("D", v=...))
    refuse("unsupported version", event("D", v="KERI20JSON000000_"))
    refuse("malformed version", event("D", v="KERI10JSON"))
    refuse("version a number", event("D", v=1))
    refuse("other kind", event("D", v="KERI10CBOR000000_"))
    for ilk in ("rot", "ixn", "drt", "rct", "", "ICP"):
        refuse("event type %r" % ilk, dict(base, t=ilk))
    refuse("no event type", event("D", t=...))
    refuse("no i to take the code from", event("D", i=...), None)


def verb(ctx, code):
    """verification of basic prefixes"""
    W = ctx.W
    fi = W.method("Prefixer", "verify")
    t, raw = key(code)
    other = prims.forms(code, Seq(tuple(b ^ 1 if i == 7 else b for i, b in enumerate(range(prims.nraw(code))))))[0]

    def ask(name, ked, want, prefixed=(None, 0, 1), concrete=False, err_ok=False):
        for pf in prefixed:
            r = W.run()
            rw = Seq(tuple(range(prims.nraw(code)))) if concrete else raw
            x = r.ref(prims.new(r, "Prefixer", code=S(code), raw=rw).okv())
            bools(ctx, "verify/%s/%s/%s" % (code, name, pf), r, fi, [x, r.ref(vals.val(ked)), opt(pf)], want,
                  "Prefixer::verify, code %s, prefixed %s: %s" % (code, pf, name), err_ok=err_ok)
    own = prims.forms(code, Seq(tuple(range(prims.nraw(code)))))[0]
    for ilk in ILKS:
        ask(ilk, event(code, t=ilk, i=t), True)
    ask("i is another", event(k=[own], i=other), False, (1,), True)
    ask("i is another", event(k=[own], i=other), True, (None, 0), True)
    ask("i is empty", event(code), False, (1,))
    ask("i is empty", event(code), True, (None, 0))
    ask("i is absent", event(code, i=...), False, (1,))
    ask("i is absent", event(code, i=...), True, (None, 0))
    for i in (0, 3, len(own.e) // 2, len(own.e) - 1):
        e = list(own.e)
        e[i] = ord("A") if e[i] != ord("A") else ord("B")
        ask("key differs in character %d" % i, event(k=[Seq(tuple(e))], i=own), False, (None, 1), True)
        ask("i differs in character %d" % i, event(k=[own], i=Seq(tuple(e))), False, (1,), True)
    for c in NON + TRANS:
        if c != code:
            ask("the same bytes as a key of code " + c, event(k=[prims.forms(c, Seq(tuple(range(prims.nraw(c)))))[0]], i=own), False, (None, 1), True)
    ask("no keys", event(k=[], i=t), False)
    ask("two keys", event(k=[t, t], i=t), False)
    ask("a second key", event(k=[t, other], i=t), False)
    ask("the second of two keys", event(k=[other, own], i=own), False, (None, 0, 1), True)
    ask("keys absent", event(k=..., i=t), False)
    ask("key shortened", event(k=[Seq(t.e[:-1])], i=t), False)
    ask("key lengthened", event(k=[Seq(t.e + (65,))], i=t), False)
    if code in NON:
        ask("n is a list", event(code, i=t, n=[other]), False)
        ask("n is two", event(code, i=t, n=[other, other]), False)
        ask("n is a text", event(code, i=t, n=other), False)
        ask("n is a list of an empty text", event(code, i=t, n=[""]), False)
        ask("n is a list of an empty list", event(code, i=t, n=[[]]), False)
        ask("n is a blank", event(code, i=t, n=" "), False)
    else:
        ask("n is a list", event(code, i=t, n=[other]), True)
        ask("b is a list", event(code, i=t, b=[other], a=[{}]), True)
    ask("n is absent", event(code, i=t, n=...), True)
    ask("n is an empty text", event(code, i=t, n=""), True)
    for ilk in ("rot", "ixn", "drt", "", "ICP", "iss"):
        ask("event type %r" % ilk, event(code, i=t, t=ilk), "err")
    ask("no event type", event(code, i=t, t=...), "err")
    ask("event type null", event(code, i=t, t=None), "err")
    ask("keys a text", event(k=t, i=t), False, err_ok=True)
    ask("key a number", event(k=[1], i=t), False, err_ok=True)


def verd(ctx, code):
    """verification of self-addressing prefixes: exactly the event they were derived from"""
    W = ctx.W
    fi = W.method("Prefixer", "verify")
    n = fs(code)
    ked = {"v": "KERI10JSON000000_", "t": "icp", "d": "", "i": "", "s": "0", "kt": ["1/2", "2/3"], "k": ["DAAA", "DBBB"], "nt": "1", "n": ["EAAA"], "bt": "1", "b": ["BAAA"], "c": ["EO"], "a": [{"i": "EBBB", "s": "3"}]}

    def raw_of(m):
        d = dict(m)
        d["i"] = d["d"] = "#" * n
        d["v"] = Seq(tuple(b"KERI10JSON%06x_" % len(vals.json(d))))
        return digs.digest(code, vals.seq(d))
    with Ideal():
        raw = raw_of(ked)
        pre = "".join(map(chr, prims.forms(code, raw)[0].e))
        good = dict(ked, i=pre, d=pre)
        good["v"] = "KERI10JSON%06x_" % len(vals.json(good))

        def ask(name, m, want, prefixed=(None, 0, 1), rw=raw, err_ok=False, c=code):
            for pf in prefixed:
                r = W.run()
                x = r.ref(prims.new(r, "Prefixer", code=S(c), raw=rw).okv())
                bools(ctx, "verify/%s/%s/%s" % (code, name, pf), r, fi, [x, r.ref(vals.val(m)), opt(pf)], want,
                      "Prefixer::verify, code %s, prefixed %s: %s" % (code, pf, name), err_ok=err_ok)
        ask("unaltered", good, True)
        ask("d is altered", dict(good, d="x"), True)
        ask("stale size", dict(good, v="KERI10JSON000001_"), True)
        ask("i is altered", dict(good, i=pre[:-1] + ("A" if pre[-1] != "A" else "B")), True, (None, 0))
        ask("i is altered", dict(good, i=pre[:-1] + ("A" if pre[-1] != "A" else "B")), False, (1,))
        ask("i is a prefix of itself", dict(good, i=pre[:-1]), False, (1,))
        ask("i is empty", dict(good, i=""), False, (1,))
        ask("i is not a text", dict(good, i=1), False, (1,), err_ok=True)
        for i in (0, len(raw.e) // 2, len(raw.e) - 1):
            e = list(raw.e)
            e[i] ^= 1
            ask("another digest (byte %d)" % i, good, False, (None, 1), Seq(tuple(e)))
        for name, x in digs.near(code, raw, ctx.thorough):
            ask("another digest, " + name, good, False, (0,), x)
        for c in DIGS:
            if c != code and digs.SIZE[c] == digs.SIZE[code]:
                ask("the same bytes under code " + c, good, False, (None, 1), raw, False, c)
        for name, m in alterations(good, "d"):
            if name in ("message has i renamed", "message loses i") or name.startswith(("i becomes", "t becomes", "message loses t", "message has t ")):
                continue
            ask(name, m, False, (None, 1))
        ask("version removed", {k: v for k, v in good.items() if k != "v"}, False, err_ok=True)
        ask("version malformed", dict(good, v="KERI10JSON"), False, err_ok=True)
        for t in ("rot", "ixn", "", 5, None):
            ask("event type %r" % t, dict(good, t=t), "err")
        ask("no event type", {k: v for k, v in good.items() if k != "t"}, "err")


def bad(ctx, code):
    """codes that are no prefix codes, and data that is no event"""
    W = ctx.W
    r = W.run()
    errs(ctx, "refused/code %s" % code, r, mk(W), args(r, event("D"), code), "Prefixer of an event with code %r" % code)
    try:
        t = prims.forms(code, symbytes("x", prims.nraw(code)))[0]
    except Exception:
        return
    r = W.run()
    errs(ctx, "refused/i of code %s" % code, r, mk(W), args(r, event("D", i=t)), "Prefixer of an event whose i has code %r" % code)


def nomap(ctx, name, v):
    W = ctx.W
    for code in ("B", "D", "E", None):
        r = W.run()
        errs(ctx, "refused/%s/%s" % (name, code), r, mk(W), args(r, v, code), "Prefixer of %s with code %s" % (name, code))
        if code:
            r = W.run()
            x = r.ref(prims.new(r, "Prefixer", code=S(code), raw=symbytes("raw", 32)).okv())
            bools(ctx, "refused/verify/%s/%s" % (name, code), r, W.method("Prefixer", "verify"), [x, r.ref(vals.val(v)), opt(1)], "err", "Prefixer::verify of %s" % name)
    if v == 5:
        r = W.run()
        errs(ctx, "refused/nothing", r, W.method("Prefixer", "new"), [opt(None)] * 7, "Prefixer::new of nothing")
        errs(ctx, "refused/only a code", r, W.method("Prefixer", "new"), [opt(None), opt(None), opt(r.s("E"))] + [opt(None)] * 4, "Prefixer::new of a code alone")


def check(ctx):
    ctx.pmap(basic, [(c,) for c in NON + TRANS])
    ctx.pmap(self_, [(c,) for c in DIGS])
    ctx.pmap(verb, [(c,) for c in NON + TRANS])
    ctx.pmap(verd, [(c,) for c in DIGS])
    ctx.pmap(bad, [(c,) for c in spec.MATTER if c not in NON + TRANS + DIGS] + [("",), ("Z",), ("b",), ("EE",)])
    ctx.pmap(nomap, [("a number", 5), ("an array", [1]), ("a text", "icp"), ("null", None), ("an empty map", {})])
