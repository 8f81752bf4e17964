"""For every Matter implementor and every derivation code, the codec is interpreted abstractly over fully
symbolic raw material (one named bit per raw bit); the qualified text and binary forms must equal, bit for
bit, the CESR layout computed independently in sa/lib.py, and decoding either form must give back the code,
the raw material and the same qualified forms for every value of those bits."""
import lib
import matterlib as ml
import msgs
import spec
from domain import Agg, S, Seq, symbytes

RULE = "one obligation per (type, code, raw length, direction, observed accessor)"
FLOOR = 50
BIG = (1, 4095, 4096, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537)
HUGE = (131072, 131077, 262144, 350003, 524288)


def lengths(ctx, code, deep):
    hs, ss, ls = spec.MATTER[code][1:4]
    base = [n for n in range(0, 10) if (3 - n % 3) % 3 == ls]
    if deep:
        # sizes whose soft characters exercise more than one sextet, and the last representable small size
        base += [3 * 63 - ls, 3 * 64 - ls, 3 * 65 - ls]
        if ss == 2:
            base += [3 * 4095 - ls]
        else:
            base += [3 * 4096 - ls]
    return base


def one(ctx, ty, code, n):
    W = ctx.W
    m = ml.M(ctx, ty)
    hs, ss, ls, fs = spec.MATTER[code][1:]
    name = ml.last(ty)
    raw = symbytes("raw", n)
    size = (n + ls) // 3 if fs is None else 0
    soft = lib.b64int(size, ss) if fs is None else ()
    want = ml.full_want(code, n, raw.e, soft)
    key = "%s/%s/%d" % (name, code, n)
    r = W.run(budget=30_000_000)
    what = "%s with code %s and %d raw bytes" % (name, code, n)
    if n or fs is not None:
        o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(raw))
        # variable-length text codes carry the lead size: any member of the family selects by length
        w = m.where("new_with_code_and_raw")
        v = ctx.must_ok(key + "/new", r, o, w, "constructing " + what)
        if v is not None:
            m.observe(key + "/new", r, r.ref(v), want, w, "constructed " + what)
        ctx.seen(r)
    if fs is not None:
        # material beyond what the code needs is cut off
        for extra in (1, 2, 3, n):
            r = W.run()
            o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(Seq(raw.e + symbytes("extra", extra).e)))
            w = m.where("new_with_code_and_raw")
            v = ctx.must_ok("%s/surplus-%d" % (key, extra), r, o, w, "constructing %s and %d more" % (what, extra))
            if v is not None:
                m.observe("%s/surplus-%d" % (key, extra), r, r.ref(v), {k: want[k] for k in ("code", "raw", "qb64", "qb2")}, w, "constructed %s and %d more" % (what, extra))
            ctx.seen(r)
    for form, arg in (("qb64", want["qb64"]), ("qb64b", want["qb64"]), ("qb2", want["qb2"])):
        r = W.run(budget=30_000_000)
        o = m.call(r, "new_with_" + form, r.ref(arg))
        w = m.where("new_with_" + form)
        v = ctx.must_ok("%s/from_%s" % (key, form), r, o, w, "decoding the %s of %s" % (form, what))
        if v is not None:
            m.observe("%s/from_%s" % (key, form), r, r.ref(v), want, w, "%s decoded from %s" % (what, form))
        ctx.seen(r)


def family(ctx, ty, code, n):
    """a variable-size code adapts to the length of the raw material: lead size and small/large table by length"""
    m = ml.M(ctx, ty)
    big = code[0] in "789"
    ls = (3 - n % 3) % 3
    size = (n + ls) // 3
    if size > 4095 and not big:
        want = "789"[ls] + "AA" + code[1]
    else:
        want = ("789" if big else "456")[ls] + code[1:]
    raw = [(7 * i + 1) % 251 for i in range(n)]
    r = ctx.W.run(budget=30_000_000)
    what = "%s with code %s and %d raw bytes" % (ml.last(ty), code, n)
    key = "family/%s/%s/%d" % (ml.last(ty), code, n)
    w = m.where("new_with_code_and_raw")
    o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(Seq(tuple(raw))))
    v = ctx.must_ok(key, r, o, w, "constructing " + what)
    if v is not None:
        t = ml.full_want(want, n, raw, lib.b64int(size, spec.MATTER[want][2]))
        m.observe(key, r, r.ref(v), {k: t[k] for k in ("code", "qb64", "qb2", "full_size")}, w, "constructed " + what)
    ctx.seen(r)


def big(ctx, ty, code, q):
    """material of q quadlets survives both directions"""
    m = ml.M(ctx, ty)
    hs, ss, ls, fs = spec.MATTER[code][1:]
    n = 3 * q - ls
    raw = msgs.filler(n)
    t = ml.full_want(code, n, raw.e, lib.b64int(q, ss))
    key = "big/%s/%s/%d" % (ml.last(ty), code, q)
    what = "%s with code %s and %d raw bytes" % (ml.last(ty), code, n)
    for form, args in (("code_and_raw", (code, raw)), ("qb64", (t["qb64"],)), ("qb2", (t["qb2"],))):
        r = ctx.W.run(budget=200_000_000)
        o = m.call(r, "new_with_" + form, *[r.s(a) if isinstance(a, str) else r.ref(a) for a in args])
        w = m.where("new_with_" + form)
        v = ctx.must_ok("%s/%s" % (key, form), r, o, w, "%s by new_with_%s" % (what, form))
        if v is not None:
            m.observe("%s/%s" % (key, form), r, r.ref(v), t, w, "%s by new_with_%s" % (what, form))
        ctx.seen(r)


def check(ctx):
    tys = ml.implementors(ctx.W)
    items = []
    first = True
    for ty in tys:
        for code in spec.MATTER:
            if spec.MATTER[code][4] is not None:
                items.append((ty, code, spec.raw_size(code)))
            else:
                for n in lengths(ctx, code, first and (ctx.thorough or code in ("4B", "6A", "8AAB"))):
                    items.append((ty, code, n))
        first = False
    ctx.pmap(one, items)
    var = [c for c in spec.MATTER if spec.MATTER[c][4] is None]
    at = [1, 2, 3, 4, 12284, 12285, 12286, 12288, 12289] + (list(range(5, 13)) + [12282, 12283, 12287, 12290, 12291] if ctx.thorough else [])
    ctx.pmap(family, [(tys[-1], c, n) for c in var for n in at])
    ctx.pmap(big, [(tys[-1], c, q) for c in var for q in ((64, 65, 4095) if c[0] in "456" else BIG + (HUGE if ctx.thorough else ()))])
    # lengths and quadlet counts at and around every constant the codec mentions
    src = ("src/core/matter/mod.rs", "src/core/matter/tables.rs", "src/core/util.rs")
    near = lib.around(ctx.W, src)
    ctx.pmap(family, [(tys[-1], c, n) for c in var for n in near if n not in at and (n < 20000 or c in var[:1])])
    ctx.pmap(big, [(tys[-1], c, q) for c in var for q in near if q < 4096 and q not in (64, 65, 4095)])
    ctx.info["constants"] = near
    ctx.info["types"] = [ml.last(t) for t in tys]
    ctx.info["codes"] = len(spec.MATTER)
