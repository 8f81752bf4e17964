"""The data model keeps what it is given: conversions into Value are exact for every scalar, conversions out are strict about the kind,
indexing reads and replaces exactly the addressed element without reordering, and JSON text is read back exactly, or refused."""
import lib
import literals
import vals
from checks import p22
from domain import Agg, Chunk, MapV, S, Seq, UNIT, is_top, mkbits, symbit
from matterlib import opt
from pathlib_ import each, errs, oks, same

RULE = "one obligation per (conversion, kind of value); scalars are unknown bits, texts unknown; JSON oracle: RFC 8259"
FLOOR = 250
V = "crate::data::Value"
KINDS = ("null", "bool", "int", "float", "text", "array", "object")


def exact(W, p):
    from world import Missing
    c = W.idx.get(p)
    if not c:
        raise Missing(p)
    return c[0]


def unk(n, w=64):
    return mkbits(tuple(symbit(n, i) for i in range(w)))


def plain(p):
    """payload of a path whose function does not return a Result"""
    return p.run.deep(p.out.v)


def into(ctx, ty):
    W = ctx.W
    w = int(ty[1:])
    fi = exact(W, "<%s as core::convert::From<%s>>::from" % (V, ty))
    x = unk("x", w)
    ext = x.b[-1] if ty[0] == "i" else 0
    want = Agg(vals.NUM, (vals.number(0.0, mkbits(x.b + (ext,) * (64 - w)), 0),))
    r = W.run()
    each(ctx, "from/" + ty, r, fi, [x], "Value::from(%s)" % ty, lambda p, k, w_, bad: same(ctx, p, k, w_, bad, plain(p), want, "the value"))


def into_misc(ctx, name):
    W = ctx.W
    r = W.run()
    items = MapV(((S("b"), vals.val(1)), (S("a"), vals.val("x"))))
    m = {
        "f64": ("f64", 1.5, vals.val(1.5)),
        "f64-negative": ("f64", -1e300, vals.val(-1e300)),
        "f32": ("f32", 0.25, vals.val(0.25)),
        "f32-inexact": ("f32", 0.10000000149011612, vals.val(0.10000000149011612)),
        "f32-large": ("f32", 16777216.0, vals.val(16777216.0)),
        "f64-inexact": ("f64", 0.1, vals.val(0.1)),
        "str": ("&str", r.ref(p22.txt("t")), vals.val(p22.txt("t"))),
        "String": ("&alloc::string::String", r.ref(p22.txt("t")), vals.val(p22.txt("t"))),
        "slice": ("&[%s]" % V, r.ref(Seq((vals.val(2), vals.val(None), vals.val("q")))), vals.val([2, None, "q"])),
        "map": ("&indexmap::map::IndexMap<alloc::string::String, %s>" % V, r.ref(items), Agg(vals.OBJ, (items,))),
    }[name]
    fi = exact(W, "<%s as core::convert::From<%s>>::from" % (V, m[0]))
    each(ctx, "from/" + name, r, fi, [m[1]], "Value::from(%s)" % name, lambda p, k, w, bad: same(ctx, p, k, w, bad, plain(p), m[2], "the value"))


def sample(kind):
    return {"null": vals.val(None), "bool": Agg(vals.BOOL, (mkbits((symbit("flag", 0),)),)), "int": vals.val(p22.NUM), "float": vals.val(2.5),
            "text": vals.val(p22.txt("t")), "array": vals.val([1, "b", None]), "object": vals.val({"z": 1, "a": [True]})}[kind]


GET = {"to_bool": "bool", "to_string": "text", "to_i64": "int", "to_f64": "float", "to_vec": "array", "to_map": "object"}
TRY = {"alloc::string::String": "text", "bool": "bool", "i64": "int", "f64": "float", "alloc::vec::Vec<%s>" % V: "array",
       "indexmap::map::IndexMap<alloc::string::String, %s>" % V: "object"}


def payload(kind):
    v = sample(kind).f[0]
    if kind in ("int", "float"):
        return v.f[vals.FIELDS.index("i" if kind == "int" else "f")]
    return v


def outof(ctx, how, kind):
    W = ctx.W
    r = W.run()
    if how in GET:
        fi = W.method("data::Value", how)
        good = GET[how]
        what = "Value::%s of a %s" % (how, kind)
    else:
        fi = exact(W, "crate::data::<impl core::convert::TryFrom<&%s> for %s>::try_from" % (V, how))
        good = TRY[how]
        what = "%s::try_from of a %s" % (how.rsplit("::", 1)[-1].strip(">"), kind)
    k = "out/%s/%s" % (how.replace(V, "Value"), kind)
    args = [r.ref(sample(kind))]
    if kind == good:
        oks(ctx, k, r, fi, args, what, lambda p, kk, w, bad, v: same(ctx, p, kk + "/value", w, bad, v, payload(kind), "the result"))
    elif how in ("i64", "f64") and kind in ("int", "float"):
        # numeric conversions between the two number forms are allowed to convert
        x = 7 if kind == "int" else 7.0
        want = 7.0 if how == "f64" else 7
        oks(ctx, k, r, fi, [r.ref(vals.val(x))], what, lambda p, kk, w, bad, v: same(ctx, p, kk + "/value", w, bad, v, want, "the result"))
    else:
        errs(ctx, k, r, fi, args, what)


def number(ctx, how, x, want):
    """conversions between the two number forms"""
    W = ctx.W
    r = W.run()
    fi = exact(W, "crate::data::<impl core::convert::TryFrom<&%s> for %s>::try_from" % (V, how))
    oks(ctx, "number/%s/%r" % (how, x), r, fi, [r.ref(vals.val(x))], "%s::try_from of the number %r" % (how, x),
        lambda p, kk, w, bad, v: same(ctx, p, kk + "/value", w, bad, v, want, "the result"))


def display(ctx, name, x):
    """a value is shown as its JSON text, alone and within other text"""
    W = ctx.W
    fi = exact(W, "<%s as core::fmt::Display>::fmt" % V)
    r = W.run()
    f = r.ref(Agg(79, (Seq(()),)))
    o = r.call(fi, r.ref(vals.val(x)), f)
    k = "display/" + name
    ctx.seen(r)
    v = r.deep(f)
    if o.never:
        (ctx.fail(k, W.loc(fi), "Display of %s panics" % name) if r.modelled() else ctx.unknown(k, name))
    elif type(v) is not Agg or v.v != 79:
        ctx.unknown(k, "Display of " + name)
    else:
        ctx.eq(k, r, v.f[0], vals.seq(x), W.loc(fi), "the displayed text of %s" % name)


def hashed(ctx, n, labels=None):
    """a hash map becomes an object with exactly its entries"""
    W = ctx.W
    items = {labels[i] if labels else "k%d" % i: [i, p22.txt("t"), None, {"a": 1}][i % 4] for i in range(n)}
    r = W.run()
    fi = exact(W, "<%s as core::convert::From<&std::collections::hash::map::HashMap<alloc::string::String, %s>>>::from" % (V, V))
    arg = r.ref(MapV(tuple((S(k), vals.val(v)) for k, v in items.items())))

    def judge(p, k, w, bad):
        v = plain(p)
        if type(v) is not Agg or v.v != vals.OBJ or type(v.f[0]) is not MapV:
            ctx.unknown(k, w) if type(v) is not Agg else bad(k, w + ": is no object")
            return
        got = {bytes(a.e).decode(): b for a, b in v.f[0].items}
        if sorted(got) != sorted(items) or len(v.f[0].items) != n:
            bad(k, "%s: the labels are %s" % (w, sorted(got)))
        else:
            for a in items:
                same(ctx, p, k + "/" + a, w, bad, got[a], vals.val(items[a]), "the value of " + a)
            ctx.ok(k)
    each(ctx, "from/hash map of %d%s" % (n, " odd" if labels else ""), r, fi, [arg], "Value::from(a hash map of %d entries)" % n, judge)


def misplaced(ctx, name, base, key, mut):
    """an element that is not there is never answered with another one"""
    W = ctx.W
    r = W.run()
    kt = "usize" if isinstance(key, int) else "&str"
    fi = exact(W, "<%s as core::ops::index::%s<%s>>::index%s" % (V, "IndexMut" if mut else "Index", kt, "_mut" if mut else ""))
    each(ctx, "index/absent/%s/%r/%s" % (name, key, mut), r, fi, [r.ref(vals.val(base)), key if isinstance(key, int) else r.s(key)], "indexing %s with %r" % (name, key),
         lambda p, k, w, bad: ctx.ok(k) if p.out.never else bad(k, w + ": gives an element") if p.out.v is not None and not is_top(p.out.v) else ctx.unknown(k, w))


def index(ctx, kind, key, mut):
    W = ctx.W
    base = {"2": 9, "a": p22.NUM, "0": p22.txt("zero"), " a": "blank", "A": [], "aa": None, "1": True} if kind == "confusing" else {"b": p22.txt("one"), "a": p22.NUM, "c": [1, 2]} if kind == "object" else [p22.txt("one"), p22.NUM, {"k": 5}]
    r = W.run()
    kt = "usize" if isinstance(key, int) else "&str"
    tr = "IndexMut" if mut else "Index"
    fi = exact(W, "<%s as core::ops::index::%s<%s>>::index%s" % (V, tr, kt, "_mut" if mut else ""))
    cont = r.ref(vals.val(base))
    a = key if isinstance(key, int) else r.s(key)
    k = "index/%s/%s/%s" % (kind, key, "mut" if mut else "read")
    what = "indexing %s an %s with %r" % ("mutably" if mut else "immutably", kind, key)
    vs_ = list(base.values()) if kind != "array" else base
    names = list(base) if kind != "array" else None
    new = False
    if isinstance(key, int):
        want = vs_[key]
    elif key in base:
        want = base[key]
    else:
        want, new = None, True

    def judge(p, kk, w, bad):
        if p.out.never:
            bad(kk, "%s: panics" % w)
            return
        same(ctx, p, kk + "/element", w, bad, plain(p), vals.val(want), "the addressed element")
        if mut:
            # write through the reference and look at the container
            from domain import Ref
            if type(p.out.v) is not Ref:
                ctx.unknown(kk + "/write", "%s: no reference returned" % w)
                return
            p.run.I.store(p.out.v, vals.val("NEW"), p.run.mem)
            if kind != "array":
                b = dict(base)
                b[names[key] if isinstance(key, int) else key] = "NEW"
            else:
                b = list(base)
                b[key] = "NEW"
            same(ctx, p, kk + "/container", w, bad, p.run.deep(cont), vals.val(b), "the container after writing the element")
    each(ctx, k, r, fi, [cont, a], what, judge)
    return new


def loads(ctx, name, text, want, size=None):
    W = ctx.W
    r = W.run()
    fi = W.fn("core::common::loads")
    what = "loads of %s" % name
    s = text if type(text) is Seq else S(text)
    args = [r.ref(s), opt(size), opt(None if name.startswith("default") else r.s("JSON"))]
    if want is ERR:
        errs(ctx, "loads/" + name, r, fi, args, what)
    else:
        oks(ctx, "loads/" + name, r, fi, args, what, lambda p, k, w, bad, v: same(ctx, p, k + "/value", w, bad, v, vals.val(want), "the value"))


ERR = object()
READ = [
    ("spaces", ' { "a" : [ 1 , 2.5 ] ,\n\t"b":null }\r\n', {"a": [1, 2.5], "b": None}),
    ("escapes", '"\\u0041\\n\\t\\"\\\\\\/\\b\\f\\r\\u00e9\\ud83d\\ude00"', "A\n\t\"\\/\b\f\ré\U0001F600"),
    ("nulls", '[null,null,{"a":null,"b":[null]},[],{},null]', [None, None, {"a": None, "b": [None]}, [], {}, None]),
    ("nested lists", '[[1],[],[[2,"x"]],false,true,"",0,-0.0]', [[1], [], [[2, "x"]], False, True, "", 0, -0.0]),
    ("odd labels", '{"":1," a":2,"a ":3,"A":4,"a":5,"1":6,"\\u00e9":7,"d":null}', {"": 1, " a": 2, "a ": 3, "A": 4, "a": 5, "1": 6, "\u00e9": 7, "d": None}),
    ("blanks within texts", '{"a":" x ","b":"\\t","c":"\\u0020"}', {"a": " x ", "b": "\t", "c": " "}),
    ("order", '{"z":1,"a":2,"m":3}', {"z": 1, "a": 2, "m": 3}),
    ("exponent", "1e3", 1000.0), ("fraction", "-0.5", -0.5), ("zero", "0", 0), ("negative", "-17", -17),
    ("largest integer", "9223372036854775807", (1 << 63) - 1), ("smallest integer", "-9223372036854775808", -(1 << 63)),
    ("beyond the largest integer", "9223372036854775808", 9223372036854775808.0), ("beyond unsigned", "18446744073709551616", 18446744073709551616.0),
    ("true", "true", True), ("false", "false", False), ("nothing", "", ERR), ("truncated object", '{"a":1', ERR), ("truncated array", "[1,", ERR),
    ("truncated text", '"abc', ERR), ("trailing garbage", "{} x", ERR), ("two values", "1 2", ERR), ("trailing comma", "[1,]", ERR),
    ("trailing comma in object", '{"a":1,}', ERR), ("single quotes", "{'a':1}", ERR), ("unquoted key", "{a:1}", ERR), ("NaN", "NaN", ERR),
    ("Infinity", "Infinity", ERR), ("leading zero", "01", ERR), ("leading plus", "+1", ERR), ("control character", '"a\nb"', ERR),
    ("lone surrogate", '"\\ud83d"', ERR), ("unknown escape", '"\\x41"', ERR), ("capital literal", "True", ERR), ("missing colon", '{"a" 1}', ERR),
    ("number key", "{1:2}", ERR),
    ("infinite", "1e309", ERR), ("minus infinite", "-1e309", ERR), ("huge fraction", "1e-400", 0.0), ("minus zero", "-0", -0.0), ("minus zero fraction", "-0.0", -0.0), ("capital exponent", "1E+2", 100.0),
    ("no fraction digits", "1.", ERR), ("no integer digits", ".5", ERR), ("no exponent digits", "1e", ERR), ("two points", "1.2.3", ERR), ("minus alone", "-", ERR), ("byte order mark", "\ufeff1", ERR),
] + [("number " + t, t, float(t) if "." in t or "e" in t or not -(1 << 63) <= int(t) < 1 << 63 else int(t)) for t in (
    "9223372036854775809", "9223372036854775806", "-9223372036854775807", "-9223372036854775809", "18446744073709551615", "18446744073709551614", "12345678901234567890", "9007199254740993", "-9007199254740993",
    "4294967296", "2147483648", "-2147483649", "1234567890123456789", "123456789012345678901234567890", "0.1", "0.30000000000000004", "16777217.0", "9007199254740993.0", "1.7976931348623157e308", "5e-324", "2.2250738585072011e-308",
    "3.141592653589793", "1e22", "1e23", "-1.5e-7", "100000000000000000000000.0", "0.000001", "1e0")]


def check(ctx):
    literals.check(ctx)
    ctx.pmap(into, [(t,) for t in ("i8", "i16", "i32", "i64", "u8", "u16", "u32")])
    ctx.pmap(into_misc, [(n,) for n in ("f64", "f64-negative", "f64-inexact", "f32", "f32-inexact", "f32-large", "str", "String", "slice", "map")])
    ctx.pmap(outof, [(h, k) for h in list(GET) + list(TRY) for k in KINDS])
    ix = [("object", k, m) for k in ("b", "a", "c", 0, 1, 2) for m in (False, True)] + [("object", "new", True), ("object", "", True)]
    ix += [("array", i, m) for i in range(3) for m in (False, True)]
    ix += [("confusing", k, m) for k in ("2", "a", "0", " a", "A", "aa", "1", 0, 1, 2, 6) for m in (False, True)] + [("confusing", k, True) for k in ("a ", "AA", "Aa", "3", "", "\u00e1")]
    ctx.pmap(index, ix)
    ob, ar = {"b": 1, "a": 2, "1": 3}, [1, 2]
    ctx.pmap(misplaced, [("an object", ob, k, False) for k in ("c", "", "B", "0", "a ", "2")] + [("an object", ob, k, m) for k in (3, 9, (1 << 64) - 1) for m in (False, True)]
             + [("an array", ar, k, m) for k in (2, 3, (1 << 64) - 1, "a", "0") for m in (False, True)] + [("an empty array", [], 0, False), ("an empty object", {}, 0, False)]
             + [(n, v, k, m) for n, v in (("null", None), ("a number", 5), ("a text", "abc"), ("true", True)) for k in (0, "a") for m in (False, True)])
    ctx.pmap(number, [("i64", x, y) for x, y in ((1.5, 1), (-1.5, -1), (0.999, 0), (2.0 ** 40, 1 << 40), (-0.0, 0), (1e30, (1 << 63) - 1), (-1e30, -(1 << 63)), (0.99999, 0), (0.9999999999, 0), (1.9999999, 1), (2.99995, 2), (-0.99999, 0), (-0.5, 0), (0.5, 0), (2.5, 2), (-2.5, -2), (1e18, 10 ** 18),
                                                             (4294967295.75, (1 << 32) - 1), (4294967296.5, 1 << 32), (2147483648.5, 1 << 31), (-2147483649.5, -(1 << 31) - 1), (9007199254740993.0, 9007199254740992), (9.3e18, (1 << 63) - 1))]
             + [("f64", x, float(x)) for x in (0, 1, -1, 16777217, -16777217, (1 << 32) + 1, 123456789, 1234567890123, (1 << 53) - 1, -(1 << 53) + 1, 1 << 53, -(1 << 62), (1 << 53) + 1, (1 << 63) - 1)] + [("f64", x, x) for x in (0.1, -2.5, 1e300)])
    ctx.pmap(display, [(n, x) for n, x in p22.shapes().items()])
    near = lib.around(ctx.W, ("src/data.rs",), hi=300)
    odd = ("",) + tuple(x for x in lib.ODD if isinstance(x, str))
    ctx.pmap(hashed, [(0,), (1,), (2,), (7,)] + [(n,) for n in near] + [(len(odd), odd)] + [(1, (x,)) for x in odd])
    ctx.pmap(loads, [("written/" + n, vals.seq(x), x) for n, x in p22.shapes().items() if not hasnum(x) and n != "key/any"])
    ctx.pmap(loads, READ)
    msg = '{"a":1}'
    ctx.pmap(loads, [("exactly the declared bytes", msg + "garbage", {"a": 1}, len(msg)), ("one byte too few", msg, ERR, len(msg) - 1),
                     ("more bytes declared than given", msg, ERR, len(msg) + 1), ("many more bytes declared than given", msg, ERR, 0xffffff),
                     ("default kind", msg, {"a": 1})])


def hasnum(x):
    if isinstance(x, vals.I64):
        return True
    if isinstance(x, (list, tuple)):
        return any(map(hasnum, x))
    if isinstance(x, (dict, vals.Pairs)):
        return any(hasnum(v) for k, v in x.items())
    return False
