"""For every Indexer implementor and every signature code the codec is interpreted abstractly with symbolic raw
material and symbolic index / other index (one run per count of significant sextets, so that every representable
value is covered). Constructed and decoded values must expose exactly the given code, raw, index and ondex and the
text and binary forms must equal the CESR layout computed in sa/lib.py."""
import idxlib as ix
import lib
import matterlib as ml
import spec
from domain import S, Seq, symbytes

RULE = "one obligation per (type, code, index class, ondex class, direction, observed accessor)"
FLOOR = 50


def one(ctx, ty, code, ic, oc):
    """ic/oc: class numbers"""
    W = ctx.W
    m = ix.X(ctx, ty)
    cname, hs, ss, os_, ls, fs = ix.row(code)
    test = code in spec.INDEXER_TEST   # only the codec is guaranteed for these, not the default of the other index
    ms = ss - os_
    iv, idig, inz = ix.classes(ms, "index")[ic]
    crt = code in spec.CURRENT_ONLY
    if os_:
        ov, odig, onz = ix.classes(os_, "ondex")[oc]
    else:
        ov, odig, onz = (0 if crt else iv), (), ()
    nz = list(inz) + list(onz)
    raw = symbytes("raw", ix.raw_len(code))
    t = ix.text(code, idig, odig, raw.e)
    want = {"code": S(code), "raw": raw, "index": iv, "ondex": ov, "qb64": t, "qb64b": t, "qb2": lib.binary(t), "full_size": fs}
    if test and not os_:
        want.pop("ondex")
    key = "%s/%s/i%d/o%s" % (ml.last(ty), code, ic, oc)
    what = "%s %s (index of %d sextets%s)" % (ml.last(ty), code, ic, ", ondex of %d sextets" % oc if os_ else "")
    w = m.where("new_with_code_and_raw")
    given = []
    if crt:
        if oc == 0:
            given.append(("", ml.opt(None)))
    elif os_:
        given.append(("", ml.opt(ov)))
        if oc == ic and not test:
            given.append(("-default", ml.opt(None)))
    else:
        given += [("", ml.opt(None)), ("-same", ml.opt(iv))]
    for tag, g in given:
        wt = want
        rn = nz
        if tag == "-default":
            t2 = ix.text(code, idig, idig, raw.e)
            wt = dict(want, ondex=iv, qb64=t2, qb64b=t2, qb2=lib.binary(t2))
            rn = list(inz)
        r = W.run(budget=30_000_000, nz=rn)
        o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(raw), iv, g)
        v = ctx.must_ok(key + "/new" + tag, r, o, w, "constructing " + what)
        if v is not None:
            m.observe(key + "/new" + tag, r, r.ref(v), wt, w, "constructed " + what)
        ctx.seen(r)
    if crt and oc:
        return
    for form, arg in (("qb64", t), ("qb64b", t), ("qb2", want["qb2"])):
        r = W.run(budget=30_000_000, nz=nz)
        o = m.call(r, "new_with_" + form, r.ref(arg))
        w2 = m.where("new_with_" + form)
        v = ctx.must_ok("%s/from_%s" % (key, form), r, o, w2, "decoding the %s of %s" % (form, what))
        if v is not None:
            m.observe("%s/from_%s" % (key, form), r, r.ref(v), want, w2, "%s decoded from %s" % (what, form))
        ctx.seen(r)


def concrete(ctx, ty, code):
    """fixed indices of every magnitude, equal and different"""
    m = ix.X(ctx, ty)
    cname, hs, ss, os_, ls, fs = ix.row(code)
    if code in spec.INDEXER_TEST:
        return
    crt = code in spec.CURRENT_ONLY
    ms = ss - os_
    vals = lambda w: sorted({v for k in range(6 * w) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1) if v < 1 << min(6 * w, 32)} | {(1 << min(6 * w, 32)) - 1})  # noqa: E731
    raw = symbytes("raw", ix.raw_len(code))
    cases = []
    for i in vals(ms):
        if crt:
            cases.append((i, None, 0))
        elif not os_:
            cases += [(i, None, i), (i, i, i)]
        else:
            cases += [(i, o, o) for o in {0, 1, i, i + 1, i - 1, 63, 64, (1 << 6 * os_) - 1} if 0 <= o < 1 << 6 * os_]
    for i, o, held in cases:
        t = ix.text(code, lib.b64int(i, ms), lib.b64int(held, os_), raw.e)
        want = {"code": S(code), "index": i, "qb64": t, "qb2": lib.binary(t)}
        if not crt:
            want["ondex"] = held
        k = "concrete/%s/%s/%d/%s" % (ml.last(ty), code, i, o)
        what = "%s %s of index %d and other index %s" % (ml.last(ty), code, i, o)
        for form, arg in (("code_and_raw", None), ("qb64", t), ("qb2", lib.binary(t))):
            r = ctx.W.run()
            if arg is None:
                x = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(raw), i, ml.opt(o))
            else:
                x = m.call(r, "new_with_" + form, r.ref(arg))
            w = m.where("new_with_" + form)
            v = ctx.must_ok("%s/%s" % (k, form), r, x, w, "%s by new_with_%s" % (what, form))
            if v is not None:
                m.observe("%s/%s" % (k, form), r, r.ref(v), want, w, "%s by new_with_%s" % (what, form))
            ctx.seen(r)


def items(ctx):
    out = []
    for ty in ml.implementors(ctx.W, "Indexer"):
        for code in list(spec.INDEXER) + ix.tests(ctx.W):
            cname, hs, ss, os_, ls, fs = ix.row(code)
            for ic in range(ss - os_ + 1):
                for oc in range(os_ + 1):
                    out.append((ty, code, ic, oc))
    return out


def check(ctx):
    tys = ml.implementors(ctx.W, "Indexer")
    ctx.require("types", bool(tys), "-", "no Indexer implementor found")
    it = items(ctx)
    ctx.pmap(one, it)
    ctx.pmap(concrete, [(ty, c) for ty in tys for c in spec.INDEXER])
    ctx.info["types"] = [ml.last(t) for t in tys]
    ctx.info["cases"] = len(it)
