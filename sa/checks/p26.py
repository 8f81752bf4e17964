"""The javascript bindings add nothing and lose nothing: every method of every wrapper gives exactly what the wrapped method gives for the same
arguments, in the same order, errors as javascript errors, values as json, 128-bit numbers as two halves."""
import lib
import prims
import sigs
import spec
import vals
from check import differs, short
from checks import p12
from checks.p18 import shapes as sads
from checks.p19 import event
from checks.p21 import vs
from domain import Agg, Obj, S, Seq, mkbits, show, symbit, symbytes
from lib import symchars, symint
from matterlib import opt

RULE = "one obligation per (wrapper method, arguments): the binding's result equals the wrapped method's on the same abstract arguments"
FLOOR = 300
CRATES = ("cesride", "cesride_wasm")


class Arg:
    """an argument in both forms"""

    def __init__(self, core, wasm):
        self.core, self.wasm = core, wasm


def own(x):
    """String / Vec<u8> where the core takes a reference"""
    x = S(x) if isinstance(x, str) else x
    return Arg(lambda r: r.ref(x), lambda r: x)


def ref(x):
    x = S(x) if isinstance(x, str) else x
    return Arg(lambda r: r.ref(x), lambda r: r.ref(x))


def lit(x):
    return Arg(lambda r: x, lambda r: x)


def o(a):
    """optional"""
    if a is None:
        return lit(opt(None))
    return Arg(lambda r: opt(a.core(r)), lambda r: opt(a.wasm(r)))


def value(v):
    return Arg(lambda r: r.ref(vals.val(v)), lambda r: Agg(0, (vals.seq(v),)))


def big(n):
    """a 128-bit number: (low, high)"""
    if isinstance(n, int):
        return Arg(lambda r: n, lambda r: Agg(0, (n & (1 << 64) - 1, n >> 64)))
    top = int(n[1:])
    t = [symbit(n, i) for i in range(top)] + [1] + [0] * (127 - top)
    return Arg(lambda r: mkbits(t), lambda r: Agg(0, (mkbits(t[:64]), mkbits(t[64:]))))


def strs(xs):
    return Arg(lambda r: r.ref(Seq(tuple(r.s(x) for x in xs))), lambda r: Obj("jsarray", r.ref(Seq(tuple(Obj("js", S(x)) for x in xs)))))


def held(make, by="wrap"):
    """a wrapped object made by `make(run of the core)`: the wrapper owns it, the core borrows it"""
    return Arg(lambda r: r.ref(make), lambda r: Agg(0, (make,)))


# ---------------------------------------------------------------- results
def same_(v):
    return v


def wrap(v):
    return Agg(0, (v,))


def omap(f):
    return lambda v: Agg(1, (f(v.f[0]),)) if v.v == 1 else v


def u128(v):
    if isinstance(v, int):
        return Agg(0, (v & (1 << 64) - 1, v >> 64))
    if hasattr(v, "b") or type(v).__name__ == "Bits":
        b = [v.b[i] if i < len(v.b) else 0 for i in range(128)]
        return Agg(0, (mkbits(b[:64]), mkbits(b[64:])))
    return None


def jsonv(v, r, live):
    """a value as its json text"""
    q = r.call(r.W.method("Value", "to_json"), r.ref(live))
    return Agg(0, (r.deep(q.okv()),)) if q.kind() == "ok" else None


def jsarray(v):
    return Obj("jsarray", Seq(tuple(Obj("js", wrap(x)) for x in v.e)))


def listed(v):
    return Agg(0, (Seq(tuple(wrap(x) for x in v.e)),))


def hook(I, mem, args, c):
    a = c.get("a") or []
    t = [I.T[x]["s"] for x in a if isinstance(x, int)]
    if t and t[0] == "wasm_bindgen::JsValue":
        return Obj("js", I.deep(args[0], mem))
    return NotImplemented


def runs(ctx):
    rc, rw = ctx.W.run(oracle=prims.crypto_ok), ctx.WW.run(oracle=prims.crypto_ok)
    for p in ("core::convert::From::from",):
        rw.I.hooks[p] = hook
    return rc, rw


def answer(r, fi, out):
    """('ok', value) for plain results and successes"""
    t = r.W.T[r.W.F[fi]["body"]["locals"][0]]
    if (t.get("path") or "").endswith("result::Result"):
        k = out.kind()
        return k, (out.okv() if k == "ok" else None)
    if out.never:
        return "panic", None
    return "ok", out.v


def compare(ctx, ty, m, name, args, res=same_, self_=None, core=None):
    """self_: the core object the method is called on, args: Arg list, res: core result -> expected wrapper result"""
    W, WW = ctx.W, ctx.WW
    rc, rw = runs(ctx)
    fc = W.method(ty, core or m)
    fw = WW.method(ty + "Wrapper", m)
    ca, wa = [], []
    if self_ is not None:
        ca.append(rc.ref(self_))
        wa.append(rw.ref(wrap(self_)))
    ca += [a.core(rc) for a in args]
    wa += [a.wasm(rw) for a in args]
    oc, ow = rc.call(fc, *ca), rw.call(fw, *wa)
    judge(ctx, ty, m, name, rc, fc, oc, rw, fw, ow, res)


def judge(ctx, ty, m, name, rc, fc, oc, rw, fw, ow, res):
    WW = ctx.WW
    k = "%s/%s/%s" % (ty, m, name)
    what = "binding %s.%s (%s)" % (ty, m, name)
    where = WW.loc(fw)
    ctx.seen(rw)
    (kc, vc), (kw, vw) = answer(rc, fc, oc), answer(rw, fw, ow)
    if kc not in ("ok", "err") or not rc.modelled():
        ctx.unknown(k, "%s: the wrapped method: %s %s" % (what, kc, sorted(map(str, rc.I.unmodelled))[:3]))
        return
    sure = rw.modelled() and kw in ("ok", "err", "panic")
    if kw != kc:
        if sure:
            ctx.fail(k, where, "%s: %s where the wrapped method gives %s" % (what, kw, kc))
        else:
            ctx.unknown(k, "%s: %s, expected %s; %s" % (what, kw, kc, sorted(map(str, rw.I.unmodelled))[:3]))
        return
    if kc == "err":
        ctx.ok(k)
        return
    want = res(rc.deep(vc), rc, vc) if res is jsonv or res is saidret else res(rc.deep(vc))
    vw = rw.deep(vw)
    if want is None:
        ctx.unknown(k, "%s: expected result not expressible: %s" % (what, short(show(rc.deep(vc)))))
        return
    d = differs(vw, want, rw.I.nz)
    if d is False:
        ctx.ok(k)
    elif d is True and sure:
        ctx.fail(k, where, "%s: gives %s, the wrapped method %s" % (what, short(show(vw), 200), short(show(want), 200)))
    else:
        ctx.unknown(k, "%s: gives %s, expected %s; %s" % (what, short(show(vw)), short(show(want)), sorted(map(str, rw.I.unmodelled))[:3]))


def saidret(v, r, live):
    t = r.I.full(live, r.mem) if type(live) is not Agg else live
    j = jsonv(None, r, t.f[1])
    return None if j is None else Agg(0, (wrap(v.f[0]), j.f[0]))


# ---------------------------------------------------------------- the bindings
def obj(W, ty, **given):
    r = W.run(oracle=prims.crypto_ok)
    g = {k: S(v) if isinstance(v, str) else v for k, v in given.items()}
    return r.deep(prims.new(r, ty, **g).okv())


def serder(W, ked):
    r = W.run()
    out = r.call(W.method("Serder", "new_with_ked"), r.ref(vals.val(ked)), opt(None), opt(None))
    return r.deep(out.okv())


MATTER = ("code", "size", "raw", "qb64", "qb64b", "qb2")
CODE = {"Verfer": ("D", "1AAB", "B"), "Diger": ("E", "0D", "I"), "Cigar": ("0B", "0C"), "Signer": ("A", "J", "Q"), "Salter": ("0A",), "Seqner": ("0A",),
        "Number": ("M", "0H", "N", "0A"), "Dater": ("1AAG",), "Bexter": ("4A", "5A", "6A"), "Prefixer": ("B", "D", "E"), "Saider": ("E", "F", "0E")}
SPECIFIC = {"Dater": ("dts", "dtsb"), "Bexter": ("bext",), "Salter": ("tier",)}
NAMES = ("ked", "allows", "sad", "label", "kind", "ignore", "ser", "verfer", "transferable", "tier", "num", "numh", "sn", "snh", "dts", "bext")


def raw_of(ty, code):
    return symbytes("raw", prims.nraw(code))


def extras(W, ty, code):
    """values of the extra constructor parameters of a type"""
    return {"verfer": o(held(obj(W, "Verfer", code="D", raw=symbytes("vk", 32)))), "transferable": o(lit(0)), "tier": o(own("high")),
            "ser": o(own("serialization")), "num": o(big("n100")), "sn": o(big("n100")), "numh": o(own("1f")), "snh": o(own("1f")), "dts": o(own("2020-08-22T17:50:09.988921+00:00")),
            "bext": o(own(Seq(symchars("b", 7)))), "ked": o(value(event("D"))), "allows": o(strs(["E", "D"])), "sad": o(value({"d": "", "a": 1, "u": 2})),
            "label": o(own("d")), "kind": o(own("JSON")), "ignore": o(strs(["u", "w"])), "code": o(own(code)), "raw": o(own(raw_of(ty, code)))}


def variants(x):
    """material that is cut, extended, or preceded or followed by blanks or line ends"""
    x = tuple(x.e)
    return [("short", Seq(x[:-1])), ("blank before", Seq((32,) + x)), ("blank after", Seq(x + (32,))), ("line end after", Seq(x + (13, 10))), ("line end before", Seq((10,) + x)), ("extended", Seq(x + (65,) * 4)), ("doubled", Seq(x + x)), ("empty", Seq(()))]


def matter(ctx, ty, code):
    W = ctx.W
    raw = raw_of(ty, code)
    t, forms = prims.forms(code, raw)
    params = prims.PRIM[ty][0]
    ex = extras(W, ty, code)
    none = lit(opt(None))

    def args(**g):
        return [g.get(p, none) for p in params]
    base = {"code": ex["code"]}
    for p in params:
        if p in ("transferable", "tier", "verfer"):
            base[p] = ex[p]
    # every form alone and with the extras, another code, and nothing at all
    full = dict(forms)
    for f in ("raw", "qb64b", "qb64", "qb2"):
        compare(ctx, ty, "new", "%s/%s" % (code, f), args(**dict(base, **{f: o(own(full[f]))})), wrap)
        compare(ctx, ty, "new", "%s/%s alone" % (code, f), args(**{f: o(own(full[f]))}), wrap)
        for nm, v in variants(full[f]):
            compare(ctx, ty, "new", "%s/%s %s" % (code, nm, f), args(**dict(base, **{f: o(own(v))})), wrap)
        other = symbytes("second", prims.nraw(code))
        compare(ctx, ty, "new", "%s/%s and others" % (code, f), args(**dict(base, **{g: o(own(full[g] if g == f else dict(prims.forms(code, other)[1])[g])) for g in ("raw", "qb64b", "qb64", "qb2")})), wrap)
    if ty != "Dater":       # the current time
        compare(ctx, ty, "new", "%s/nothing" % code, args(), wrap)
        compare(ctx, ty, "new", "%s/code only" % code, args(**base), wrap)
    for p in params:
        if p not in prims.MATTER_IN and p not in ("transferable", "tier", "verfer"):
            compare(ctx, ty, "new", "%s/%s" % (code, p), args(**{p: ex[p], "code": ex["code"]}), wrap)
            compare(ctx, ty, "new", "%s/%s alone" % (code, p), args(**{p: ex[p]}), wrap)
    # the named constructors
    layout = prims.PRIM[ty][3]
    for f in ("raw", "qb64b", "qb64", "qb2"):
        order = layout.get("raw", ["raw", "code"]) if f == "raw" else [f] + layout.get("*", [])
        for nm, x in [("", full[f])] + variants(full[f]):
            for given in (True, False):
                compare(ctx, ty, "new_with_" + f, "%s%s/%s" % (code, nm, given), [ref(x) if p == f else ex[p] if given else none for p in order], wrap)
    # accessors
    x = obj(W, ty, **{k: v for k, v in {"code": S(code), "raw": raw}.items()})
    for m in MATTER:
        if m != "size" or ty != "Siger":
            compare(ctx, ty, m, code, [], self_=x)
    if ty == "Bexter":
        x = obj(W, ty, bext=Seq(symchars("b", 6)), code=code)
    for m in SPECIFIC.get(ty, ()):
        compare(ctx, ty, m, code, [], self_=x)
    if ty == "Dater":
        x = obj(W, ty, dts="2020-08-22T17:50:09.988921+00:00")
        for m in SPECIFIC[ty]:
            compare(ctx, ty, m, "stamp", [], self_=x)


def misc(ctx, what):
    W = ctx.W
    none = lit(opt(None))
    raw = lambda n, t="raw": symbytes(t, n)  # noqa: E731
    ser = ref(Seq(symchars("ser", 20)))
    if what == "Verfer":
        for c in prims.VERF:
            for n in (64, 0, 63, 65, 128):
                compare(ctx, what, "verify", c if n == 64 else "%s/%d" % (c, n), [ref(raw(n, "sig")), ser], self_=obj(W, what, code=c, raw=raw(prims.nraw(c), "vk")))
            for n in (0, 1, 200):
                compare(ctx, what, "verify", "%s/of %d" % (c, n), [ref(raw(64, "sig")), ref(Seq(symchars("ser", n)))], self_=obj(W, what, code=c, raw=raw(prims.nraw(c), "vk")))
    elif what == "Diger":
        for c in ("E", "0D"):
            x = obj(W, what, code=c, raw=raw(prims.nraw(c)))
            compare(ctx, what, "verify", c, [ser], self_=x)
            compare(ctx, what, "new_with_ser", c, [ser, o(own(c))], wrap)
            compare(ctx, what, "new_with_ser", "default", [ser, none], wrap)
            from checks import p17
            import digs
            with p17.Fixed():
                for a, b in ((1, 1), (1, 0), (0, 1)):
                    mk = lambda c_, g: obj(W, what, code=c_, raw=p17.right(c_) if g else p17.right(c_, 1))  # noqa: E731
                    for c2 in ("I", c):
                        x, d = mk(c, a), mk(c2, b)
                        t = prims.forms(c2, p17.right(c2) if b else p17.right(c2, 1))[0]
                        sr = ref(digs.SER)
                        n = "%s/%s/%d%d" % (c, c2, a, b)
                        compare2(ctx, "compare_dig", n, x, [sr, ref(t)], [sr, o(ref(t)), none])
                        compare2(ctx, "compare_dig", n + "/short", x, [sr, ref(Seq(t.e[:-1]))], [sr, o(ref(Seq(t.e[:-1]))), none])
                        compare2(ctx, "compare_diger", n, x, [sr, Arg(None, lambda r: r.ref(wrap(d)))], [sr, none, o(Arg(lambda r: r.ref(d), None))])
    elif what == "Number":
        for c in CODE[what]:
            x = obj(W, what, code=c, raw=raw(prims.nraw(c)))
            compare(ctx, what, "num", c, [], u128, x)
            compare(ctx, what, "numh", c, [], same_, x)
        for n in (0, 255, 1 << 63, 1 << 64, (1 << 64) + 5, (5 << 64) + 1, (1 << 128) - 1, "n127", "n100", "n64", "n63", "n40", "n7"):
            compare(ctx, what, "new_with_num", str(n), [big(n)], wrap)
        for n in ("", "0", "ff", "xyz", "1" * 32, "1" * 33):
            compare(ctx, what, "new_with_numh", n, [ref(n)], wrap)
    elif what == "Seqner":
        x = obj(W, what, code="0A", raw=raw(16))
        compare(ctx, what, "sn", "0A", [], u128, x)
        compare(ctx, what, "snh", "0A", [], same_, x)
        for n in (0, 255, 1 << 63, 1 << 64, (1 << 64) + 5, (5 << 64) + 1, (1 << 128) - 1, "n127", "n100", "n64", "n63", "n40", "n7"):
            compare(ctx, what, "new_with_sn", str(n), [big(n)], wrap)
        for n in ("", "0", "ff", "xyz", "1" * 32, "1" * 33):
            compare(ctx, what, "new_with_snh", n, [ref(n)], wrap)
    elif what == "Dater":
        for t in ("2020-08-22T17:50:09.988921+00:00", "2020-08-22T17:50:09.988921-05:00", "now", ""):
            for cn, c in (("default", none), ("1AAG", o(own("1AAG"))), ("E", o(own("E")))):
                compare(ctx, what, "new_with_dts", "%s/%s" % (t, cn), [ref(t), c], wrap)
    elif what == "Bexter":
        for n in (1, 4, 6, 23):
            compare(ctx, what, "new_with_bext", str(n), [ref(Seq(symchars("b", n)))], wrap)
        compare(ctx, what, "new_with_bext", "foreign", [ref("a b")], wrap)
    elif what == "Signer":
        for c in sigs.SUITE:
            x = obj(W, what, code=c, raw=raw(32))
            compare(ctx, what, "sign_unindexed", c, [ser], wrap, x)
            compare(ctx, what, "verfer", c, [], wrap, x)
            for only in (0, 1):
                for i, j in ((0, None), (0, 0), (1, 0), (3, 5), (5, 3), (63, 64), (64, None), (70, 70), (5000, None), (1 << 31, 7), (70000000000 % (1 << 32), None)):
                    compare(ctx, what, "sign_indexed", "%s/%d/%s/%s" % (c, only, i, j), [ser, lit(only), lit(i), lit(opt(j))], wrap, x)
    elif what == "Salter":
        x = obj(W, what, code="0A", raw=raw(16, "salt"), tier="med")
        compare(ctx, what, "new_with_defaults", "none", [none], wrap)
        compare(ctx, what, "new_with_defaults", "high", [o(own("high"))], wrap)
        for size, path, tier, temp in ((None, None, None, None), (64, "p", "high", 0), (48, "q", "low", 1), (32, "r", "none", None), (2, "r", "low", None)):
            a = [lit(opt(size)), o(own(path)) if path else none, o(own(tier)) if tier else none, lit(opt(temp))]
            compare(ctx, what, "stretch", str((size, path, tier, temp)), a, same_, x)
        for code, tr, path, tier, temp in ((None, None, None, None, None), ("J", 0, "p", "high", 0), ("Q", 1, "q", "low", 1), ("E", 1, "q", "low", 1), ("A", 0, "x", "none", 0)):
            a = [o(own(code)) if code else none, lit(opt(tr)), o(own(path)) if path else none, o(own(tier)) if tier else none, lit(opt(temp))]
            compare(ctx, what, "signer", str((code, tr, path, tier, temp)), a, wrap, x)
            for count, start in ((None, None), (0, 3), (3, None), (2, 14)):
                b = [lit(opt(count)), lit(opt(start)), a[2], a[0], a[1], a[3], a[4]]
                compare(ctx, what, "signers", str((count, start, code, tr, path, tier, temp)), b, listed, x)
    elif what == "Siger":
        for c in ("A", "B", "2A", "E", "2E"):
            r = W.run(oracle=prims.crypto_ok)
            g = {"code": S(c), "raw": raw(64), "index": 5}
            if c.startswith("2") :
                g["ondex"] = 70
            vf = obj(W, "Verfer", code="D", raw=raw(32, "vk"))
            q = prims.new(r, "Siger", verfer=vf, **g)
            x = r.deep(q.okv())
            for m in ("code", "raw", "index", "ondex", "qb64", "qb64b", "qb2"):
                compare(ctx, what, m, c, [], same_, x)
            compare(ctx, what, "verfer", c, [], wrap, x)
            t = r.deep(r.call(W.method("Siger", "qb64"), r.ref(x)).okv())
            b = r.deep(r.call(W.method("Siger", "qb2"), r.ref(x)).okv())
            v = o(held(vf))
            for ver, vn in ((v, "verfer"), (none, "none")):
                for nm, cut in (("", 0), ("/short", 1)):
                    cutf = lambda z: Seq(z.e[:len(z.e) - cut])  # noqa: E731
                    compare(ctx, what, "new_with_qb64", c + vn + nm, [ref(cutf(t)), ver], wrap)
                    compare(ctx, what, "new_with_qb64b", c + vn + nm, [ref(cutf(t)), ver], wrap)
                    compare(ctx, what, "new_with_qb2", c + vn + nm, [ref(cutf(b)), ver], wrap)
                    for i, j in ((None, None), (5, None), (5, 70), (70, 5)):
                        compare(ctx, what, "new_with_raw", "%s%s%s/%s/%s" % (c, vn, nm, i, j), [ref(cutf(raw(64))), ver, lit(opt(i)), lit(opt(j)), o(own(c))], wrap)
                        compare(ctx, what, "new", "raw/%s%s%s/%s/%s" % (c, vn, nm, i, j), [ver, lit(opt(i)), lit(opt(j)), o(own(c)), o(own(cutf(raw(64)))), none, none, none], wrap)
                    for n, z in enumerate((t, t, b)):
                        a = [none] * 8
                        a[0] = ver
                        a[5 + n] = o(own(cutf(z)))
                        compare(ctx, what, "new", "%s/%s%s%s" % (("qb64b", "qb64", "qb2")[n], c, vn, nm), a, wrap)
            compare(ctx, what, "new", "nothing" + c, [none] * 8, wrap)
    elif what == "Cigar":
        for c in ("0B", "0C"):
            vf = obj(W, "Verfer", code="D", raw=raw(32, "vk"))
            r = W.run()
            x = r.deep(prims.new(r, "Cigar", code=S(c), raw=raw(64), verfer=vf).okv())
            compare(ctx, what, "verfer", c, [], wrap, x)
    elif what == "Prefixer":
        for code in ("B", "E", "D", None, "Z"):
            for al in (None, ["E"], [], ["B", "D"]):
                for ilk in ("icp", "rot"):
                    a = [value(event("B", t=ilk)), o(strs(al)) if al is not None else none, o(own(code)) if code else none]
                    compare(ctx, what, "new_with_ked", "%s/%s/%s" % (code, al, ilk), a, wrap)
                    compare(ctx, what, "new", "ked/%s/%s/%s" % (code, al, ilk), [o(a[0]), a[1], a[2], none, none, none, none], wrap)
        t = prims.forms("B", raw(32, "key"))[0]
        x = obj(W, what, code="B", raw=raw(32, "key"))
        for pf in (None, 0, 1):
            for i in (t, "other"):
                compare(ctx, what, "verify", "%s/%s" % (pf, i is t), [value(event("B", i=i)), lit(opt(pf))], same_, x)
            compare(ctx, what, "verify", "%s/rot" % pf, [value(event("B", t="rot")), lit(opt(pf))], same_, x)
    elif what == "Saider":
        v = "KERI10JSON000000_"
        texts = list(lib.ODD) + ["\\/", "\\u0041", "\\n", "\u2028", "</script>", "\\\\/", "\"", "\\\""]
        for code in (None, "F"):
            C = o(own(code)) if code else none
            odd = {"d": "", "a": texts, "m": {t: i for i, t in enumerate(texts)}}
            compare(ctx, what, "saidify", "odd texts/%s" % code, [value(odd), C, none, none, none], saidret)
            compare(ctx, what, "new_with_sad", "odd texts/%s" % code, [value(odd), none, none, none, C], wrap)
        for ms, sad in (("plain", {"d": "", "a": "x", "u": 2, "x": ""}), ("versioned", {"v": v, "d": "", "a": [1]}), ("none", {"a": 1})):
            for label in (None, "x"):
                for ig in (None, ["u"], []):
                    for kind in (None, "JSON", "CBOR"):
                        for code in (None, "F", "B"):
                            name = "%s/%s/%s/%s/%s" % (ms, label, ig, kind, code)
                            L, G = o(own(label)) if label else none, o(strs(ig)) if ig is not None else none
                            K, C = o(own(kind)) if kind else none, o(own(code)) if code else none
                            compare(ctx, what, "saidify", name, [value(sad), C, K, L, G], saidret)
                            compare(ctx, what, "new_with_sad", name, [value(sad), L, K, G, C], wrap)
                            compare(ctx, what, "new", "sad/" + name, [o(value(sad)), L, K, G, C, none, none, none, none], wrap)
    elif what == "SaiderVerify":
        from checks import p18
        with p18.Ideal():
            for shape in ("plain", "versioned"):
                sad, label = p18.concrete(shape)
                rw_, good = p18.expect_c(sad, label, "E")
                x = obj(W, "Saider", code="E", raw=rw_)
                for nm, m in (("good", good), ("altered", dict(good, zz=1)), ("label", dict(good, d="E"))) + ((("stale", dict(good, v=good["v"][:10] + "000001_")), ("stale label", dict(good, d="E", v=good["v"][:10] + "000001_"))) if "v" in good else ()):
                    for pf in (None, 0, 1):
                        for ver in (None, 0, 1):
                            compare(ctx, "Saider", "verify", "%s/%s/%s/%s" % (shape, nm, pf, ver), [value(m), lit(opt(pf)), lit(opt(ver)), none, none, none], same_, x)
                    compare(ctx, "Saider", "verify", "%s/%s/ignore" % (shape, nm), [value(m), lit(opt(1)), lit(opt(0)), o(own("JSON")), o(own("d")), o(strs(["zz", "a"]))], same_, x)
                    compare(ctx, "Saider", "verify", "%s/%s/label" % (shape, nm), [value(m), lit(opt(1)), lit(opt(0)), o(own("JSON")), o(own("zz")), none], same_, x)
                    compare(ctx, "Saider", "verify", "%s/%s/kind" % (shape, nm), [value(m), lit(opt(1)), lit(opt(0)), o(own("CBOR")), none, none], same_, x)
    elif what == "Tholder":
        num = {"0": 0, "2": 2, "hex": "1f", "flat": ["1/2", "1/2", "1/2"], "nested": [["1/2", "1/2"], ["1"]], "bad": "x", "text": '["1/2","1/2"]', "neg": -1}
        for n, v in num.items():
            compare(ctx, what, "new_with_sith", n, [value(v)], wrap)
            compare(ctx, what, "new_with_thold", n, [value(v)], wrap)
            compare(ctx, what, "new", "sith/" + n, [none, none, o(value(v))], wrap)
            compare(ctx, what, "new", "thold/" + n, [o(value(v)), none, none], wrap)
            compare(ctx, what, "new", "both/" + n, [o(value(v)), none, o(value(3))], wrap)
        compare(ctx, what, "new", "nothing", [none] * 3, wrap)
        for n in ("2", "flat", "nested", "hex"):
            r = W.run()
            q = r.call(W.method(what, "new_with_sith"), r.ref(vals.val(num[n])))
            x = r.deep(q.okv())
            l = r.deep(r.call(W.method(what, "limen"), r.ref(x)).okv())
            compare(ctx, what, "new_with_limen", n, [ref(l)], wrap)
            compare(ctx, what, "new_with_limen", n + "/short", [ref(Seq(l.e[:-1]))], wrap)
            compare(ctx, what, "new", "limen/" + n, [none, o(own(l)), none], wrap)
            compare(ctx, what, "new", "limen and sith/" + n, [none, o(own(l)), o(value(7))], wrap)
            for m in ("weighted", "size", "num", "limen", "to_json"):
                compare(ctx, what, m, n, [], same_, x)
            compare(ctx, what, "thold", n, [], jsonv, x)
            compare(ctx, what, "sith", n, [], jsonv, x)
            compare(ctx, what, "number", n, [], omap(wrap), x)
            compare(ctx, what, "bexter", n, [], omap(wrap), x)
            for ix in ((), (0,), (0, 1), (0, 0), (0, 1, 2), (2, 1), (9,), (0,) * 70 + (1, 2), tuple(range(300)), (0, 1 << 31), (0, 1, (1 << 32) - 1)):
                compare(ctx, what, "satisfy", "%s/%s" % (n, short(str(ix), 60)), [Arg(lambda r: r.ref(Seq(ix)), lambda r: r.ref(Seq(ix)))], same_, x)
    elif what == "Serder":
        key = prims.forms("D", raw(32, "k"))[0]
        key2 = prims.forms("B", raw(32, "k2"))[0]
        dig = prims.forms("E", raw(32, "n"))[0]
        wit = prims.forms("B", raw(32, "w"))[0]
        ev = event(k=[key, key2], n=[dig], b=[wit], kt="2", nt=["1"], s="1f", i=key)
        for nm, ked in (("event", ev), ("no identifier", {"v": vs("KERI", (1, 0, 0, 0), (0, 0, 0, 0))}), ("no version", {"d": ""})):
            for code in (None, "F", "B"):
                for kind in (None, "JSON", "CBOR"):
                    C, K = o(own(code)) if code else none, o(own(kind)) if kind else none
                    compare(ctx, what, "new_with_ked", "%s/%s/%s" % (nm, code, kind), [value(ked), C, K], wrap)
                    compare(ctx, what, "new", "ked/%s/%s/%s" % (nm, code, kind), [C, none, K, o(value(ked)), none], wrap)
        good = dict(ev, d=dig)
        r = W.run()
        out = r.call(W.method(what, "new_with_ked"), r.ref(vals.val(good)), opt(None), opt(None))
        x = r.deep(out.okv())
        rawb = r.deep(r.get(r.ref(x), what, "raw"))
        compare(ctx, what, "new", "raw", [none, o(own(rawb)), none, none, none], wrap)
        compare(ctx, what, "new", "sad", [none, none, none, none, o(held(x))], wrap)
        compare(ctx, what, "new", "nothing", [none] * 5, wrap)
        compare(ctx, what, "new", "short raw", [none, o(own(Seq(rawb.e[:-1]))), none, none, none], wrap)
        odd = dict(good, x=list(lib.ODD) + ["\\/", "\\u0041", "\u2028", "\\\\/"], y={t: "" for t in lib.ODD})
        r4 = W.run()
        y4 = r4.deep(r4.call(W.method(what, "new_with_ked"), r4.ref(vals.val(odd)), opt(None), opt(None)).okv())
        compare(ctx, what, "ked", "odd texts", [], jsonv, y4)
        compare(ctx, what, "raw", "odd texts", [], same_, y4)
        compare(ctx, what, "new_with_ked", "odd texts", [value(odd), none, none], wrap)
        bad = dict(good, k=["x"], n=["y"], b=["z"], kt="no", nt="no", s="no")
        r2 = W.run()
        y = r2.deep(r2.call(W.method(what, "new_with_ked"), r2.ref(vals.val(bad)), opt(None), opt(None)).okv())
        many = dict(good, k=[key, key2] * 130 + [key], n=[dig, dig] * 130, b=[wit] * 255 + [key2, wit])
        r3 = W.run()
        y3 = r3.deep(r3.call(W.method(what, "new_with_ked"), r3.ref(vals.val(many)), opt(None), opt(None)).okv())
        for m in ("verfers", "digers", "werfers"):
            compare(ctx, what, m, "many", [], jsarray, y3)
        for nm, z in (("good", x), ("bad", y)):
            for m in ("verfers", "digers", "werfers"):
                compare(ctx, what, m, nm, [], jsarray, z)
            for m in ("tholder", "ntholder", "fner"):
                compare(ctx, what, m, nm, [], omap(wrap), z)
            compare(ctx, what, "sner", nm, [], wrap, z)
            compare(ctx, what, "sn", nm, [], u128, z)
            compare(ctx, what, "_fn", nm, [], u128, z)
            for m in ("code", "raw", "ident", "kind", "size"):
                compare(ctx, what, m, nm, [], same_, z)
            compare(ctx, what, "ked", nm, [], jsonv, z)
            compare(ctx, what, "version", nm, [], wrap, z)
            compare(ctx, what, "saider", nm, [], wrap, z)


def compare2(ctx, m, name, x, wargs, cargs):
    """Diger's comparison is split in two"""
    W, WW = ctx.W, ctx.WW
    rc, rw = runs(ctx)
    fc, fw = W.method("Diger", "compare"), WW.method("DigerWrapper", m)
    oc = rc.call(fc, rc.ref(x), *[a.core(rc) for a in cargs])
    ow = rw.call(fw, rw.ref(wrap(x)), *[a.wasm(rw) for a in wargs])
    judge(ctx, "Diger", m, name, rc, fc, oc, rw, fw, ow, same_)


def codes(ctx):
    """the codex enumerations"""
    WW = ctx.WW
    for enum, fn, table, consts in (("CesrideMatterCodex", "matter_codex_code", {n: c for n, c in spec.MCODE.items()}, None),
                                    ("CesrideIndexerCodex", "indexer_codex_code", {v[0]: c for c, v in spec.INDEXER.items()}, None)):
        for i, v in enumerate(WW.adts[WW.adt(enum)]["vs"]):
            n = v["n"]
            want = table.get(n) or table.get({"Ed25519Seed": "Ed25519_Seed"}.get(n, n))
            k = "%s/%s" % (enum, n)
            if want is None:        # reserved codes have no reference
                continue
            r = WW.run()
            fi = WW.fn(fn)
            out = r.call(fi, Agg(i, ()))
            ctx.eq(k, r, r.deep(out.v), S(want), WW.loc(fi), "%s of %s.%s" % (fn, enum, n))
            ctx.seen(r)


def others(ctx):
    """the helper types of the bindings"""
    WW = ctx.WW
    r = WW.run()
    t = Seq(symchars("t", 9))
    out = r.call(WW.method("ValueWrapper", "new"), r.ref(t))
    ctx.eq("Value/new", r, r.deep(out.v), wrap(t), WW.loc(WW.method("ValueWrapper", "new")), "Value of a text")
    ctx.eq("Value/value", r, r.deep(r.call(WW.method("ValueWrapper", "value"), r.ref(out.v)).v), t, WW.loc(WW.method("ValueWrapper", "value")), "the text of a Value")
    ctx.seen(r)
    xs = tuple(wrap(obj(ctx.W, "Signer", code="A", raw=symbytes("r%d" % i, 32))) for i in range(3))
    for m, args, want in [("len", (), 3), ("is_empty", (), 0)] + [("get", (i,), opt(xs[i] if i < 3 else None)) for i in (0, 1, 2, 3, 4, 1 << 40)]:
        r = WW.run()
        fi = WW.method("Signers", m)
        out = r.call(fi, r.ref(Agg(0, (Seq(xs),))), *args)
        ctx.eq("Signers/%s/%s" % (m, args), r, r.deep(out.v), want, WW.loc(fi), "Signers.%s%s of three signers" % (m, args))
    for n in [0, 1, 2] + lib.around(WW, ("wasm/src/primitives/signer.rs", "src/primitives/signer.rs"), lo=4, hi=5000):
        ys = tuple(xs[(i * i + i // 3) % 3] for i in range(n))
        for m, args, want in [("len", (), n), ("is_empty", (), int(n == 0))] + [("get", (i,), opt(ys[i] if i < n else None)) for i in sorted({0, 1, n // 2, max(0, n - 2), max(0, n - 1), n, n + 1})]:
            r = WW.run()
            fi = WW.method("Signers", m)
            out = r.call(fi, r.ref(Agg(0, (Seq(ys),))), *args)
            ctx.eq("Signers/%s/%s/%d" % (m, args, n), r, r.deep(out.v), want, WW.loc(fi), "Signers.%s%s of %d signers" % (m, args, n))
    # text that is no JSON is never taken for a value
    for t in ("", "\"2", "\"2\"x", "\"2\"\0", "\0\"2\"", "\"2\",", "2 3", "02", "'2'", "\ufeff\"2\"", "+2", "2.", "[\"1/2\",]", "{\"a\":1,}", "nul", "0x2", "\u00a02", "\"2\"\x0b"):
        r = WW.run()
        fi = WW.method("TholderWrapper", "new_with_sith")
        out = r.call(fi, Agg(0, (S(t),)))
        k = "Value/malformed/%r" % t
        if r.modelled() and out.kind() == "ok":
            ctx.fail(k, WW.loc(fi), "Tholder.new_with_sith of the Value %r: accepted though it is no JSON" % t)
        elif out.kind() in ("err", "panic"):
            ctx.ok(k)
        else:
            ctx.unknown(k, "%r: %s %s" % (t, out.kind(), sorted(map(str, r.I.unmodelled))[:3]))
    r = WW.run()
    fi = WW.method("Signers", "is_empty")
    ctx.eq("Signers/is_empty/none", r, r.deep(r.call(fi, r.ref(Agg(0, (Seq(()),)))).v), 1, WW.loc(fi), "Signers.is_empty of no signers")
    ctx.seen(r)


def check(ctx):
    ctx.WW
    ctx.pmap(matter, [(t, c) for t in CODE for c in CODE[t]])
    ctx.pmap(misc, [(t,) for t in ("Verfer", "Diger", "Number", "Seqner", "Dater", "Bexter", "Signer", "Salter", "Siger", "Cigar", "Prefixer", "Saider", "SaiderVerify", "Tholder", "Serder")])
    ctx.pmap(codes, [()])
    ctx.pmap(others, [()])
