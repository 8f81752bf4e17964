"""Constructor forms agree: each new_with_* constructor of each typed primitive, for every permitted code and all raw bytes,
yields the value its argument denotes (code, raw, text, binary) with the extra arguments (verifier, index, transferability,
tier) in effect; when several forms are supplied raw takes precedence over text bytes, text bytes over text, text over binary."""
import lib
import matterlib as ml
import idxlib
import prims
import spec
import vals
from check import differs, short
from domain import Agg, S, Seq, symbytes

RULE = "one obligation per (type, code, constructor) and observed accessor, and per supplied pair of forms"
FLOOR = 500


def extra(ctx, r, ty, key, what, where, obj, given):
    """the extra arguments are in effect"""
    if "verfer" in given:
        v = r.get(obj, ty, "verfer")
        vo = r.ref(v)
        vc = given.get("_vk", "D")
        for acc, w in (("code", S(vc)), ("raw", symbytes("vk", prims.nraw(vc)))):
            ctx.eq("%s/verfer-%s" % (key, acc), r, r.get(vo, "Verfer", acc), w, where, "%s: verfer().%s()" % (what, acc))
    if "transferable" in given:
        v = r.ref(r.get(obj, ty, "verfer"))
        code = {("A", 1): "D", ("A", 0): "B", ("J", 1): "1AAB", ("J", 0): "1AAA", ("Q", 1): "1AAJ", ("Q", 0): "1AAI"}[given["_code"], given["transferable"]]
        ctx.eq("%s/verfer-code" % key, r, r.get(v, "Verfer", "code"), S(code), where, "%s: verfer().code()" % what)
    if "tier" in given:
        ctx.eq("%s/tier" % key, r, r.get(obj, ty, "tier"), given["tier"], where, what + ": tier()")


# what an extra argument that is not given means, in every constructor
DEFAULTS = {"Signer": {"transferable": 1}, "Salter": {"tier": S("low")}}


def verfer(r, code="D"):
    o = prims.new(r, "Verfer", code=S(code), raw=symbytes("vk", prims.nraw(code)))
    return o.okv()


def form_call(ctx, ty, code, form, ex):
    """call new_with_<form> with its extra arguments"""
    W = ctx.W
    raw = symbytes("raw", prims.nraw(code))
    t, fs = prims.forms(code, raw)
    layout = prims.PRIM[ty][3]
    order = layout.get("raw", ["raw", "code"]) if form == "raw" else [form] + layout.get("*", [])
    r = W.run(oracle=prims.crypto_ok)
    given = dict(ex)
    if form == "raw":
        given["code"] = S(code)
    if "verfer" in order:
        given["verfer"] = verfer(r, ex.get("_vk", "D"))
    args = []
    for p in order:
        if p == form:
            args.append(r.ref(fs[form]))
        elif p in given:
            v = given[p]
            args.append(ml.opt(v if isinstance(v, int) else r.ref(v)))
        else:
            args.append(ml.opt(None))
    name = "new_with_" + form
    fi = W.method(ty, name)
    o = r.call(fi, *args)
    tag = ",".join("%s=%s" % (k, v if isinstance(v, (int, str)) else "".join(map(chr, v.e))) for k, v in sorted(ex.items()))
    key = "%s/%s/%s/%s" % (ty, code, name, tag or "-")
    what = "%s::%s of code %s%s" % (ty, name, code, " (%s)" % tag if tag else "")
    where = W.loc(fi)
    x = ctx.must_ok(key, r, o, where, what)
    if x is not None:
        obj = r.ref(x)
        hs, ss, ls, f = spec.MATTER[code][1:]
        soft = lib.b64int((len(raw.e) + ls) // 3, ss) if f is None else ()
        ml.M(ctx, W.adtm(ty)).observe(key, r, obj, ml.full_want(code, len(raw.e), raw.e, soft), where, what)
        given["_code"] = code
        if not ex and ty in DEFAULTS:
            given.update(DEFAULTS[ty])
        extra(ctx, r, ty, key, what, where, obj, given)
    ctx.seen(r)


def prec(ctx, ty, code):
    """pairs of forms holding different material: the earlier one wins"""
    W = ctx.W
    where = W.loc(W.method(ty, "new"))
    n = prims.nraw(code)
    a, b = symbytes("first", n), symbytes("second", n)
    order = ["raw", "qb64b", "qb64", "qb2"]
    for i in range(4):
        for j in range(i + 1, 4):
            fa = prims.forms(code, a)[1][order[i]]
            fb = prims.forms(code, b)[1][order[j]]
            r = W.run(oracle=prims.crypto_ok)
            g = {order[i]: fa, order[j]: fb}
            if i == 0:
                g["code"] = S(code)
            key = "%s/%s/%s-over-%s" % (ty, code, order[i], order[j])
            what = "%s::new given both %s and %s" % (ty, order[i], order[j])
            o = prims.new(r, ty, **g)
            if ty == "Signer" and i == 0:
                pass
            x = ctx.must_ok(key, r, o, where, what)
            if x is not None:
                ctx.eq(key + "/raw", r, r.get(r.ref(x), ty, "raw"), a, where, what + ": raw()")
            ctx.seen(r)


def siger(ctx, code, form, vk):
    W = ctx.W
    n = idxlib.raw_len(code)
    name, hs, ss, os_, ls, fs = spec.INDEXER[code]
    raw = symbytes("raw", n)
    cur = code in spec.CURRENT_ONLY
    idx = 3
    ond = 0 if cur else (5 if os_ else 3)
    t = idxlib.text(code, lib.b64int(idx, ss - os_), lib.b64int(ond, os_), raw.e)
    v = {"raw": raw, "qb64b": t, "qb64": t, "qb2": lib.binary(t)}[form]
    r = W.run(oracle=prims.crypto_ok)
    vf = ml.opt(r.ref(verfer(r, vk)))
    fi = W.method("Siger", "new_with_" + form)
    if form == "raw":
        o = r.call(fi, r.ref(v), vf, ml.opt(idx), ml.opt(None if cur else ond), ml.opt(r.s(code)))
    else:
        o = r.call(fi, r.ref(v), vf)
    key = "Siger/%s/new_with_%s/%s" % (code, form, vk)
    what = "Siger::new_with_%s of code %s with a verifier of code %s" % (form, code, vk)
    x = ctx.must_ok(key, r, o, W.loc(fi), what)
    if x is not None:
        obj = r.ref(x)
        for acc, w in (("code", S(code)), ("raw", raw), ("index", idx)) + ((("ondex", ond),) if not cur else ()):
            ctx.eq("%s/%s" % (key, acc), r, r.get(obj, "Siger", acc), w, W.loc(fi), "%s: %s()" % (what, acc))
        for acc, w in (("qb64", t), ("qb2", lib.binary(t))):
            y = r.get(obj, "Siger", acc)
            if type(y) is Agg and y.v == 0 and y.f:
                y = y.f[0]
            ctx.eq("%s/%s" % (key, acc), r, y, w, W.loc(fi), "%s: %s()" % (what, acc))
        extra(ctx, r, "Siger", key, what, W.loc(fi), obj, {"verfer": 1, "_vk": vk})
    ctx.seen(r)


def arg(r, v):
    """an argument as the constructors take it"""
    return v if isinstance(v, int) else r.ref(v)


# constructors named after one content argument: (type, method, parameters of the method, parameters of new, values of the content)
NAMED = [("Bexter", "new_with_bext", ["bext"], None, [S(t) for t in ("", "q", "Qz", "abc", "wxyz", "0123456", "abA", "a=", "ab\n", "-_09AZ", "A", "AAAA", "a b", "+", "\u00e9")]),
         ("Pather", "new_with_bext", ["bext"], None, [S(t) for t in ("-", "-a", "-a-b", "-0-z-A", "a", "", "--", "-a-", "-a b", "-\u00e9")]),
         ("Pather", "new_with_path", ["path"], None, [vals.val(x) for x in ([], ["a"], ["a", "b"], ["0", "z", "A"], [1, "b"], ["a b"], "a", {"a": 1}, [None])]),
         ("Dater", "new_with_dts", ["dts", "code"], None, [S(t) for t in ("2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921-01:00", "2020-08-22T17:50:09", "")]),
         ("Number", "new_with_num", ["num"], None, [0, 1, 255, 65535, 65536, 2**32, 2**64 - 1, 2**64, 2**127, 2**128 - 1]),
         ("Number", "new_with_numh", ["numh"], None, [S(t) for t in ("0", "1", "f", "F", "ff", "fF", "10", "ffff", "10000", "0" * 20, "f" * 32, "1" + "0" * 32, "", "g", "-1", "0x1", " 1", "1 ", "+1")]),
         ("Seqner", "new_with_sn", ["sn"], None, [0, 1, 255, 65536, 2**64 - 1, 2**64, 2**128 - 1]),
         ("Seqner", "new_with_snh", ["snh"], None, [S(t) for t in ("0", "1", "f", "F", "ff", "fF", "10", "ffff", "f" * 32, "1" + "0" * 32, "", "g", "-1", "0x1", " 1", "1 ", "+1")]),
         ("Salter", "new_with_defaults", ["tier"], None, [S("low"), S("med"), S("high"), None]),
         ("Tholder", "new_with_thold", ["thold"], ["thold", "limen", "sith"], [vals.val(x) for x in (1, 2, 12, 0, -1, "1", [["1/2", "1/2"]], [], None, "")]),
         ("Tholder", "new_with_limen", ["limen"], ["thold", "limen", "sith"], [S(t) for t in ("MAAB", "MAAC", "MAAA", "4AAEA1s2c1s2", "4AABA1s2", "5AABAA-A", "M", "", "MAAB ", " MAAB", "\nMAAB", "DAAB")]),
         ("Tholder", "new_with_sith", ["sith"], ["thold", "limen", "sith"],
          [vals.val(x) for x in (1, 2, 12, 0, -1, "1", "c", "C", "", "1.5", ["1/2", "1/2"], [["1/2", "1/2"], ["1"]], [], None, True, '["1/2","1/2"]')])]


def named(ctx, ty, name, i):
    """a constructor named after one argument does what new does when given only that"""
    W = ctx.W
    _, _, params, layout, contents = next(x for x in NAMED if x[:2] == (ty, name))
    v = contents[i]
    fi = W.method(ty, name)
    r, q = W.run(oracle=prims.crypto_ok), W.run(oracle=prims.crypto_ok)
    r.I.clock = q.I.clock = (2026, 11, 20, 7, 5, 9, 12345678)
    opt_first = name == "new_with_defaults"
    o = r.call(fi, *[(ml.opt(None if v is None else arg(r, v)) if opt_first else arg(r, v)) if k == 0 else ml.opt(None) for k in range(len(params))])
    args = [ml.opt(arg(q, v) if p == params[0] and v is not None else None) for p in layout or prims.PRIM[ty][0]]
    w = q.call(W.method(ty, "new"), *args)
    key = "%s/%s/%d" % (ty, name, i)
    what = "%s::%s of %s against %s::new of it" % (ty, name, short(v, 60), ty)
    ctx.seen(r)
    ctx.seen(q)
    if not (r.modelled() and q.modelled()) or {o.kind(), w.kind()} - {"ok", "err", "panic"}:
        ctx.unknown(key, what)
    elif o.kind() != w.kind():
        ctx.fail(key, W.loc(fi), "%s: %s, not %s" % (what, o.kind(), w.kind()))
    elif o.kind() == "ok":
        d = differs(r.deep(o.okv()), q.deep(w.okv()), r.I.nz)
        (ctx.unknown(key, what) if d is None else ctx.fail(key, W.loc(fi), "%s: another object" % what) if d else ctx.ok(key))
    else:
        ctx.ok(key)


def some(n):
    return Seq(tuple((37 * i + 11) & 255 for i in range(n)))


def mistreated(ctx, ty, form):
    """a constructor named after a form of the material does what new does when given only that, for material that is not quite right"""
    W = ctx.W
    code = (prims.PRIM[ty][1] if ty in prims.PRIM else ("A",))[0]
    if ty == "Siger":
        t = idxlib.text("A", lib.b64int(3, 1), (), some(64).e)
        good = {"qb64": t, "qb64b": t, "qb2": lib.binary(t), "raw": some(64)}[form]
        params = prims.SIGER
        order = [form, "verfer"] + (["index", "ondex", "code"] if form == "raw" else [])
    else:
        good = prims.forms(code, some(prims.nraw(code)))[1][form]
        params, layout = prims.PRIM[ty][0], prims.PRIM[ty][3]
        order = layout.get("raw", ["raw", "code"]) if form == "raw" else [form] + layout.get("*", [])
    text = tuple(b"zZ09") if form != "raw" else (1, 2)
    odd = [((c,) + good.e, "%r before" % chr(c)) for c in b" \n\t\0=-A"] + [(good.e + (c,), "%r after" % chr(c)) for c in b" \n\t\0=-A"] + [(good.e[:n], "%d of it" % n) for n in (0, 1, 2, 3, len(good.e) - 1)]
    odd += [(good.e + good.e, "twice"), (good.e[1:], "without its head"), (good.e + text, "with more after"), (text + good.e, "with more before"), (tuple(reversed(good.e)), "reversed"),
            ((32,) + good.e + (32,), "in blanks"), ((34,) + good.e + (34,), "quoted")]
    if form in ("qb64", "qb64b"):
        odd += [(tuple(e) + good.e[len(e):], "of code %r" % e.decode()) for e in (b"E", b"a", b"0A", b"1AAG", b"4A", b"9AAA", b"-A", b"_", b"\xc3\xa9", b"d")]
    fi = W.method(ty, "new_with_" + form)
    for e, n in odd:
        if form == "qb64" and any(type(x) is int and x > 127 for x in e):
            continue
        r, q = W.run(oracle=prims.crypto_ok), W.run(oracle=prims.crypto_ok)
        v = Seq(e)
        o = r.call(fi, *[r.ref(v) if p == form else ml.opt(r.ref(S(code))) if p == "code" else ml.opt(None) for p in order])
        g = {form: v}
        if form == "raw":
            g["code"] = S(code)
        w = q.call(W.method(ty, "new"), *prims.args(q, params, g))
        key = "%s/%s/odd/%s" % (ty, form, n)
        what = "%s::new_with_%s against new of the same: material of code %s, %s" % (ty, form, code, n)
        ctx.seen(r)
        ctx.seen(q)
        if not (r.modelled() and q.modelled()) or {o.kind(), w.kind()} - {"ok", "err", "panic"}:
            (ctx.ok(key) if not o.never and not w.never and o.v == w.v else ctx.unknown(key, what))
        elif o.kind() != w.kind():
            ctx.fail(key, W.loc(fi), "%s: %s, not %s" % (what, o.kind(), w.kind()))
        elif o.kind() == "ok":
            d = differs(r.deep(o.okv()), q.deep(w.okv()), r.I.nz)
            (ctx.unknown(key, what) if d is None else ctx.fail(key, W.loc(fi), "%s: another object" % what) if d else ctx.ok(key))
        else:
            ctx.ok(key)


def sized(ctx, ty, code, form, k):
    """material of any number of bytes: the constructor named after the form takes all of it, as new does"""
    W = ctx.W
    params, layout = prims.PRIM[ty][0], prims.PRIM[ty][3]
    ls = prims.spec.MATTER[code][3]
    order = layout.get("raw", ["raw", "code"]) if form == "raw" else [form]
    fi = W.method(ty, "new_with_" + form)
    raw = some(3 * k - ls)
    t, forms = prims.forms(code, raw)
    r = W.run()
    o = r.call(fi, *[r.ref(forms[form]) if p == form else ml.opt(r.ref(S(code))) for p in order])
    key = "%s/%s/%s/of %d bytes" % (ty, form, code, len(raw.e))
    what = "%s::new_with_%s of material of code %s and %d bytes" % (ty, form, code, len(raw.e))
    ctx.seen(r)
    if o.kind() != "ok":
        (ctx.fail(key, W.loc(fi), "%s: %s" % (what, o.kind())) if r.modelled() and o.kind() in ("err", "panic") else ctx.unknown(key, what))
        return
    x = r.ref(o.okv())
    for m, want in (("raw", raw), ("code", S(code)), ("size", k)):
        ctx.eq(key + "/" + m, r, r.get(x, ty, m), want, W.loc(fi), "%s: its %s" % (what, m))
    q = r.call(W.method(ty, "qb64"), x)
    if q.kind() == "ok":
        ctx.eq(key + "/qb64", r, r.deep(q.okv()), t, W.loc(fi), "%s: its text" % what)
    else:
        (ctx.fail if r.modelled() and q.kind() in ("err", "panic") else lambda a, b, c: ctx.unknown(a, c))(key + "/qb64", W.loc(fi), "%s: its text: %s" % (what, q.kind()))


def check(ctx):
    ks = sorted({1, 2, 3, 4, 16, 21, 22, 23, 33, 43, 64, 85, 86, 100, 171, 342, 400} | {v // 3 + d for v in lib.around(ctx.W, ("src/core/pather.rs", "src/core/bexter.rs", "src/core/matter/mod.rs"), lo=5, hi=12000) for d in (0, 1, 2)})
    ctx.pmap(sized, [(ty, c, f, k) for ty in ("Bexter", "Pather") for c in prims.STR if prims.spec.MATTER[c][4] is None for f in ("raw", "qb64b", "qb64", "qb2") for k in ks if k <= 4095 or prims.spec.MATTER[c][2] > 2])
    ctx.pmap(mistreated, [(ty, f) for ty in list(prims.PRIM) + ["Siger"] for f in ("raw", "qb64b", "qb64", "qb2")])
    ctx.pmap(named, [(x[0], x[1], i) for x in NAMED for i in range(len(x[4]))])
    items = []
    for ty, (params, permitted, dflt, layout) in prims.PRIM.items():
        for code in permitted:
            for form in ("raw", "qb64b", "qb64", "qb2"):
                if ty == "Signer":
                    items += [(ty, code, form, {"transferable": x}) for x in (0, 1)] + [(ty, code, form, {})]
                elif ty == "Salter":
                    items += [(ty, code, form, {"tier": S(x)}) for x in ("low", "med", "high")] + [(ty, code, form, {})]
                elif ty == "Cigar":
                    items += [(ty, code, form, {"_vk": v}) for v in prims.VERF]
                else:
                    items.append((ty, code, form, {}))
    ctx.pmap(form_call, items)
    ctx.pmap(prec, [(ty, p[1][-1]) for ty, p in prims.PRIM.items()])
    ctx.pmap(siger, [(c, f, v) for c in prims.SIGER_CODES for f in ("raw", "qb64b", "qb64", "qb2") for v in prims.VERF])
