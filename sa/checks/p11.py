"""Typed primitives only ever hold their permitted codes: for every typed primitive, every Matter (or Indexer) derivation
code and every input form (raw+code, text bytes, text, binary; through new() with an explicit, absent or contradicting code
argument), construction succeeds exactly when the code carried by the material is permitted, and the result reports that
code and that raw material."""
import lib
import matterlib as ml
import idxlib
import prims
import spec
from domain import S, Seq, symbytes

RULE = "one obligation per (type, code, input form, code argument)"
FLOOR = 2000
HINTS = {"M": "0H", "B": "D", "E": "F", "0B": "0C", "A": "J", "4A": "5A"}


def one(ctx, ty, code):
    W = ctx.W
    params, permitted, dflt, _ = prims.PRIM[ty]
    n = prims.nraw(code)
    raw = symbytes("raw", n)
    t, fs = prims.forms(code, raw)
    where = W.loc(W.method(ty, "new"))
    for form, v in fs.items():
        args = [None]
        if form == "raw":
            args = [code]
        elif code in permitted:
            # an explicit code argument must not turn foreign material into a permitted code, nor the reverse
            args += [permitted[0], permitted[-1]]
        else:
            args += [permitted[0], permitted[-1], code]
        for a in dict.fromkeys(args):
            r = W.run(oracle=prims.crypto_ok)
            g = {form: v}
            if a is not None:
                g["code"] = S(a)
            key = "%s/%s/%s/%s" % (ty, code, form, "-" if a is None else a)
            what = "%s::new from the %s form of code %s%s" % (ty, form, code, "" if a is None or form == "raw" else " with code argument " + a)
            o = prims.new(r, ty, **g)
            if code in permitted:
                x = ctx.must_ok(key, r, o, where, what)
                if x is not None:
                    obj = r.ref(x)
                    ctx.eq(key + "/code", r, r.get(obj, ty, "code"), S(code), where, what + ": code()")
                    ctx.eq(key + "/raw", r, r.get(obj, ty, "raw"), raw, where, what + ": raw()")
            else:
                ctx.must_err(key, r, o, where, what)
            ctx.seen(r)


def siger(ctx, code):
    W = ctx.W
    n = idxlib.raw_len(code)
    name, hs, ss, os_, ls, fs = spec.INDEXER[code]
    raw = symbytes("raw", n)
    cur = code in spec.CURRENT_ONLY
    idx, ond = 3, (5 if os_ else 3)
    if cur:
        ond = 0
    t = idxlib.text(code, lib.b64int(idx, ss - os_), lib.b64int(ond, os_), raw.e)
    where = W.loc(W.method("Siger", "new"))
    for form, v in {"raw": raw, "qb64b": t, "qb64": t, "qb2": lib.binary(t)}.items():
        for a in ([code] if form == "raw" else [None, "A", "2A"]):
            r = W.run()
            g = {form: v}
            if a is not None:
                g["code"] = S(a)
            if form == "raw":
                g["index"] = idx
                if os_ and not cur:
                    g["ondex"] = ond
            key = "Siger/%s/%s/%s" % (code, form, "-" if a is None else a)
            what = "Siger::new from the %s form of code %s" % (form, code)
            o = prims.new(r, "Siger", **g)
            if code in prims.SIGER_CODES:
                x = ctx.must_ok(key, r, o, where, what)
                if x is not None:
                    obj = r.ref(x)
                    ctx.eq(key + "/code", r, r.get(obj, "Siger", "code"), S(code), where, what + ": code()")
                    ctx.eq(key + "/raw", r, r.get(obj, "Siger", "raw"), raw, where, what + ": raw()")
                    ctx.eq(key + "/index", r, r.get(obj, "Siger", "index"), idx, where, what + ": index()")
            else:
                ctx.must_err(key, r, o, where, what)
            ctx.seen(r)


def undefined(ctx, ty):
    """codes outside the table, and no material at all"""
    W = ctx.W
    where = W.loc(W.method(ty, "new"))
    for c in ["", "a", "Z", "0Z", "1AAZ", "4Z", "CESR", "B ", "b", "1AA", "0", "1", "1A", "0a", "AA", "DD"]:
        r = W.run(oracle=prims.crypto_ok)
        o = prims.new(r, ty, code=S(c), raw=symbytes("raw", 64))
        ctx.must_err("%s/undefined/%s" % (ty, c), r, o, where, "%s::new with raw material and the undefined code %r" % (ty, c))
        ctx.seen(r)


def check(ctx):
    items = [(ty, c) for ty in prims.PRIM for c in spec.MATTER]
    ctx.pmap(one, items)
    ctx.pmap(siger, [(c,) for c in spec.INDEXER])
    ctx.pmap(undefined, [(t,) for t in prims.PRIM])
