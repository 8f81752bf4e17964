"""Texts and paths survive their encoding: a Bexter holds exactly the given base64url text and gives it back; a Pather holds exactly the given
path elements and gives them back, joins with and strips a root, and resolves to exactly the addressed part of a message or refuses."""
import itertools
import lib
import prims
import vals
from domain import Agg, Ch, S, Seq, mkbits, symbit
from lib import binary, symchars
from pathlib_ import answer, bools, each, errs, oks, same
from checks.p22 import txt

RULE = "one obligation per (length or shape, form, accessor); characters are unknown base64url characters"
FLOOR = 300
CODES = {0: "4A", 1: "5A", 2: "6A"}


def chars(name, n, nodash=False):
    """unknown characters; the first is not 'A' (see DESIGN: a text of 4k characters that starts with A is ambiguous in CESR), optionally none is '-'"""
    out = list(symchars(name, n))
    if n and not nodash:
        b = out[0].b
        out[0] = Ch(b[:2] + (1,) + b[3:])
    if nodash:
        out = [Ch((1,) + c.b[1:]) for c in out]
    return tuple(out)


def rawof(t):
    """CESR raw of a base64 text: left padded with A to a quadlet, decoded, lead bytes removed"""
    n = len(t)
    ws, ls = -n % 4, (3 - n % 4) % 3
    return Seq(binary(Seq((65,) * ws + tuple(t))).e[ls:]), CODES[ls]


def call(ctx, p, k, w, bad, ty, x, m, want, *args):
    q = p.run
    o = q.call(ctx.W.method(ty, m), x, *args)
    if o.kind() == "ok":
        same(ctx, p, k, w, bad, q.deep(o.okv()), want, m + "()")
    elif o.kind() in ("err", "panic"):
        bad(k, "%s: %s() %s" % (w, m, "is refused" if o.kind() == "err" else "panics"))
    else:
        ctx.unknown(k, "%s: %s()" % (w, m))


def bext(ctx, ty, n, form):
    W = ctx.W
    t = chars("t", n)
    if ty == "Pather":
        t = (45,) + tuple(Ch((1,) + c.b[1:]) for c in t)
    raw, code = rawof(t)
    n = len(t)
    r = W.run()
    f = prims.forms(code, raw)[1]
    given = {form: Seq(t) if form == "bext" else f[form]}
    if form == "raw":
        given["code"] = S(code)
    what = "%s::new from the %s form of any %d-character text" % (ty, form, n)

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        same(ctx, p, kk + "/code", w, bad, p.run.get(x, ty, "code"), S(code), "code()")
        same(ctx, p, kk + "/raw", w, bad, p.run.get(x, ty, "raw"), raw, "raw()")
        call(ctx, p, kk + "/bext", w, bad, ty, x, "bext", Seq(t))
        if ty == "Pather":
            call(ctx, p, kk + "/path", w, bad, ty, x, "path", vals.val([Seq(t[1:])] if n > 1 else []))
    oks(ctx, "%s/%s/%d" % (ty, form, n), r, W.method(ty, "new"), prims.args(r, prims.PRIM[ty][0], given), what, judge)


def bad_text(ctx, ty, t):
    W = ctx.W
    r = W.run()
    errs(ctx, "%s/refused/%r" % (ty, t), r, W.method(ty, "new"), prims.args(r, prims.PRIM[ty][0], {"bext": S(t)}), "%s::new of the text %r" % (ty, t))


def elems(shape):
    return [Seq(chars("e%d" % i, n, True)) if type(n) is int else n for i, n in enumerate(shape)]


def joined(es):
    out = (45,)
    for i, e in enumerate(es):
        out += ((45,) if i else ()) + (e.e if isinstance(e, Seq) else tuple(str(e).encode()))
    return out


def mk(ctx, r, es):
    return prims.new(r, "Pather", path=vals.val([e for e in es]))


def path(ctx, shape):
    W = ctx.W
    es = elems(shape)
    r = W.run()
    what = "Pather::new of a path with elements of sizes %s" % (shape,)

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        raw, code = rawof(joined(es))
        same(ctx, p, kk + "/raw", w, bad, p.run.get(x, "Pather", "raw"), raw, "raw()")
        same(ctx, p, kk + "/code", w, bad, p.run.get(x, "Pather", "code"), S(code), "code()")
        call(ctx, p, kk + "/bext", w, bad, "Pather", x, "bext", Seq(joined(es)))
        call(ctx, p, kk + "/path", w, bad, "Pather", x, "path", vals.val([e if isinstance(e, Seq) else str(e) for e in es]))
    oks(ctx, "path/" + "-".join(map(str, shape)), r, W.method("Pather", "new"), prims.args(r, prims.PRIM["Pather"][0], {"path": vals.val(es)}), what, judge)


def path_ints(ctx, es):
    W = ctx.W
    r = W.run()

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        call(ctx, p, kk + "/bext", w, bad, "Pather", x, "bext", S("-" + "-".join(map(str, es))))
        call(ctx, p, kk + "/path", w, bad, "Pather", x, "path", vals.val([str(e) for e in es]))
    oks(ctx, "path/%r" % (es,), r, W.method("Pather", "new"), prims.args(r, prims.PRIM["Pather"][0], {"path": vals.val(es)}), "Pather::new of the path %r" % (es,), judge)


def path_bad(ctx, es):
    W = ctx.W
    r = W.run()
    errs(ctx, "path-refused/%r" % (es,), r, W.method("Pather", "new"), prims.args(r, prims.PRIM["Pather"][0], {"path": vals.val(es)}), "Pather::new of the path %r" % (es,))


def path_dashed(ctx, es):
    """an element that contains the separator is refused, or its text is kept to the letter"""
    W = ctx.W
    r = W.run()
    want = S("-" + "-".join(map(str, es)))

    def judge(p, k, w, bad):
        kind, v = answer(p)
        if kind == "err":
            ctx.ok(k)
        elif kind == "ok":
            call(ctx, p, k, w, bad, "Pather", p.run.ref(v), "bext", want)
        elif kind == "panic":
            bad(k, w + ": panics: " + v)
        else:
            ctx.unknown(k, w)
    each(ctx, "path-dashed/%r" % (es,), r, W.method("Pather", "new"), prims.args(r, prims.PRIM["Pather"][0], {"path": vals.val(es)}), "Pather::new of the path %r" % (es,), judge)


def rooting(ctx, a, b):
    """root joins, strip undoes it, starts_with holds"""
    W = ctx.W
    ea, eb = [[Seq(chars("%s%d" % (c, i), n, True)) if type(n) is int else S(n) for i, n in enumerate(x)] for c, x in (("a", a), ("b", b))]
    r = W.run()
    pa, pb = r.ref(mk(ctx, r, ea).okv()), r.ref(mk(ctx, r, eb).okv())
    k = "root/%s/%s" % ("-".join(map(str, a)), "-".join(map(str, b)))
    what = "rooting a path of sizes %s at one of sizes %s" % (b, a)
    both = ea + eb

    def judge(p, kk, w, bad, v):
        x = p.run.ref(v)
        call(ctx, p, kk + "/bext", w, bad, "Pather", x, "bext", Seq(joined(both)))
        o = p.run.call(W.method("Pather", "starts_with"), x, pa)
        g = p.run.deep(o.okv()) if o.kind() == "ok" else None
        if g == 1:
            ctx.ok(kk + "/starts")
        elif g == 0:
            bad(kk + "/starts", w + ": the result does not start with the root")
        else:
            ctx.unknown(kk + "/starts", w)
    oks(ctx, k, r, W.method("Pather", "root"), [pb, pa], what, judge)


def stripping(ctx, path_, root, want):
    W = ctx.W
    r = W.run()
    x = r.ref(mk(ctx, r, path_).okv())
    y = r.ref(mk(ctx, r, root).okv())
    k = "strip/%s/%s" % ("-".join(path_), "-".join(root))
    what = "stripping %r from %r" % (root, path_)
    oks(ctx, k, r, W.method("Pather", "strip"), [x, y], what,
        lambda p, kk, w, bad, v: call(ctx, p, kk + "/path", w, bad, "Pather", p.run.ref(v), "path", vals.val(want)))


def starts(ctx, a, b, want):
    W = ctx.W
    r = W.run()
    x, y = r.ref(mk(ctx, r, a).okv()), r.ref(mk(ctx, r, b).okv())
    bools(ctx, "starts/%s/%s" % ("-".join(a), "-".join(b)), r, W.method("Pather", "starts_with"), [x, y], want, "whether %r starts with %r" % (a, b))


MSG = {"a": {"z": txt("az"), "b": [txt("ab0"), {"c": txt("c")}, []], "1x": None}, "b": [1, [2, 3], {"d": True}], "e": txt("e"), "f": {}}


def steps(x, pre=()):
    yield pre, x
    if isinstance(x, dict):
        for i, (k, v) in enumerate(x.items()):
            yield from steps(v, pre + (k,))
            yield pre + (str(i),), v
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from steps(v, pre + (str(i),))


KEYS = {"1": txt("one"), "0": txt("zero"), "x": txt("ex"), "10": txt("ten"), "2": [txt("l0"), txt("l1")], "1_": txt("under"), "01": txt("lead")}


def resolve_keys(ctx, path_, want):
    resolve(ctx, path_, want, KEYS, "keys")


def resolve(ctx, path_, want, msg=MSG, tag="resolve"):
    W = ctx.W
    r = W.run()
    x = r.ref(mk(ctx, r, list(path_)).okv())
    what = "resolving %r" % (path_,)
    fi = W.method("Pather", "resolve")
    args = [x, r.ref(vals.val(msg))]
    k = tag + "/" + "-".join(path_)
    if want is ERR:
        errs(ctx, k, r, fi, args, what)
    else:
        oks(ctx, k, r, fi, args, what, lambda p, kk, w, bad, v: same(ctx, p, kk + "/value", w, bad, v, vals.val(want), "the resolved value"))


ERR = object()


def tail(ctx, name, v, want):
    """tail gives an embedded identifier or the JSON of an embedded part, nothing else"""
    W = ctx.W
    r = W.run()
    said = "E" + "B" * 43
    ked = {"v": "KERI10JSON000000_", "d": said, "x": v}
    fi = W.method("Serder", "new")
    s = r.call(W.method("Serder", "new_with_ked"), r.ref(vals.val(ked)), Agg(0, ()), Agg(0, ()))
    if s.kind() != "ok":
        ctx.unknown("tail/" + name, "no serder")
        return
    x = r.ref(mk(ctx, r, ["x"]).okv())
    args = [x, r.ref(s.okv())]
    if want is ERR:
        errs(ctx, "tail/" + name, r, W.method("Pather", "tail"), args, "tail of a %s" % name)
    else:
        oks(ctx, "tail/" + name, r, W.method("Pather", "tail"), args, "tail of a %s" % name, lambda p, kk, w, bad, u: same(ctx, p, kk + "/text", w, bad, u, want, "the tail"))


def check(ctx):
    top = 24 if not ctx.thorough else 64
    ctx.pmap(bext, [(ty, n, f) for ty in ("Bexter", "Pather") for n in range(1, top) for f in ("bext", "raw", "qb64b", "qb64", "qb2")])
    near = [n for n in lib.around(ctx.W, ("src/core/bexter.rs", "src/core/pather.rs", "src/core/matter/mod.rs", "src/core/util.rs"), hi=600) if n >= top]
    ctx.pmap(bext, [(ty, n, f) for ty in ("Bexter", "Pather") for n in near for f in ("bext", "raw", "qb64b", "qb64", "qb2")])
    ctx.pmap(path, [((1,) * n,) for n in lib.around(ctx.W, ("src/core/pather.rs",), lo=5, hi=64)] + [((n,) * 2,) for n in lib.around(ctx.W, ("src/core/pather.rs",), hi=300)])
    ctx.pmap(bad_text, [(ty, t) for ty in ("Bexter", "Pather") for t in ("+", "a b", "a/b", "=", "abc=", "abc\n", "\u00e9", "a.b", "ab\u0000")])
    shapes = [(), (1,), (2,), (3,), (4,), (1, 1), (1, 2, 3), (4, 4), (5, 1, 7, 2), (8,) * 4]
    ctx.pmap(path, [(s,) for s in shapes])
    ctx.pmap(path_ints, [(e,) for e in ([0], [1, 2], ["a", 0, "b"], [10, "x"], [(1 << 63) - 1])])
    ctx.pmap(path_bad, [(e,) for e in (["a b"], ["a", "b/c"], ["."], [1.5], [None], [["a"]], [True], [{"a": 1}], "a", {"a": 1}, None, 5, ["\u00e9"], ["a\n"])])
    ctx.pmap(rooting, [(a, b) for a in ((), (1,), (2, 3)) for b in ((1,), (3,), (1, 4)) if a])
    ctx.pmap(rooting, [(a, b) for a in (("a",), ("a", "b"), ("a", "a"), ("b", "a"), ("0",)) for b in (("a",), ("b",), ("a", "a"), ("a", "b"), ("b", "a"), ("0", "0"), ("a", "b", "a"))])
    ctx.pmap(path_dashed, [(e,) for e in ([-5], ["a", -1], [-1, -1], [0, -(1 << 63)], ["a-b"], ["-"], ["a", "-b"], ["a-", "b"], ["--"], ["-1"])])
    # every pair of paths of up to three elements over elements that are prefixes, suffixes and repetitions of one another
    words = ("a", "b", "ab")
    lists = [list(x) for n in range(4) for x in itertools.product(words, repeat=n)]
    few = [x for x in lists if len(x) <= 2]
    pairs = [(x, y) for x in lists for y in (lists if ctx.thorough else few)] + [(["a", "b", "a", "b", "c"], ["a", "b", "a"]), (["a"] * 5, ["a"] * 3), (["1"], ["10"]), (["10"], ["1"]), (["x_", "y"], ["x_"]), (["x_y"], ["x_"])]
    lead = lambda x, y: x[:len(y)] == y  # noqa: E731
    ctx.pmap(stripping, [(x, y, x[len(y):] if lead(x, y) else x) for x, y in pairs])
    empty = [(["a", "b"], ["a", ""]), (["a", ""], ["a"]), (["a", "", "b"], ["a", ""]), (["a", "b"], ["a", "", ""]), (["a", "", "b"], ["a", "b"]), (["a", ""], ["a", ""])]
    ctx.pmap(starts, [(x, y, lead(x, y)) for x, y in pairs + empty])
    good = dict((p, v) for p, v in steps(MSG))
    bads = [("q",), ("4",), ("99",), ("a", "q"), ("a", "3"), ("b", "3"), ("b", "x"), ("b", "1", "2"), ("e", "0"), ("e", "x"), ("b", "0", "0"), ("a", "1x", "0"), ("f", "0"), ("f", "x"), ("a", "b", "2", "0")]
    ctx.pmap(resolve, [(p, v) for p, v in good.items()] + [(p, ERR) for p in bads])
    # text that only resembles a position is a name
    ctx.pmap(resolve, [(p, ERR) for p in (("b", "_1"), ("b", "1_"), ("b", "0x1"), ("b", "1e0"), ("b", "a1"), ("b", "1a"), ("b", "_"), ("a", "b", "_0"), ("_0",), ("A",), ("a", "B"), ("a", "1X"), ("a_",), ("_a",), ("18446744073709551616",), ("b", "18446744073709551616"),
                                                ("b", "18446744073709551617"), ("b", "4294967296"), ("4294967297",))])
    ctx.pmap(resolve, [(("b", "00"), 1), (("b", "001", "01"), 3), (("00", "z"), txt("az"))])
    # in a map a number is a position, whatever the names
    kv = list(KEYS.items())
    ctx.pmap(resolve_keys, [((str(i),), v) for i, (k, v) in enumerate(kv)] + [(("10",), ERR), (("7",), ERR), (("x",), KEYS["x"]), (("1_",), KEYS["1_"]), (("01",), kv[1][1]), (("4", "1"), txt("l1")), (("2", "0"), ERR)])
    said = "E" + "B" * 43
    fixed = Seq(symchars("t", 7))
    ctx.pmap(tail, [("digest", said, S(said)), ("map", {"b": 1, "a": [fixed]}, vals.seq({"b": 1, "a": [fixed]})), ("array", [1, "x"], vals.seq([1, "x"])),
                    ("plain text", "hello", ERR), ("verification key", "D" + "B" * 43, ERR), ("truncated digest", said[:-1], ERR), ("number", 5, ERR), ("null", None, ERR), ("boolean", True, ERR),
                    ("empty text", "", ERR)])
