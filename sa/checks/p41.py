"""Setters change exactly what they name: after a setter of a primitive, signature or message object the accessor of that name gives the
value that was set, every other accessor gives what it gave before, and a second setting replaces the first; the qualified forms are those of
the content that was set, or none when no such content exists."""
import idxlib
import lib
import prims
import spec
import vals
from check import short
from checks.p21 import version, vs
from checks.p34 import IDENT, ONE, ZERO, said, sized
from domain import S, Seq, symbytes
from lib import symchars
from matterlib import opt

RULE = "one obligation per (type, setter, value, accessor); the material of the object and the value set are unknown"
FLOOR = 400
MATTER = ("code", "raw", "size")
INDEXER = ("code", "raw", "index", "ondex")
SADDER = ("code", "raw", "ked", "ident", "kind", "size", "version", "saider")
MORE = {"Cigar": ("verfer",), "Signer": ("verfer",), "Salter": ("tier",), "Siger": ("verfer",)}


def made(W, ty):
    """a run and an object of the type"""
    r = W.run(oracle=prims.crypto_ok)
    if ty == "Siger":
        t = idxlib.text("A", lib.b64int(3, 1), (), symbytes("raw", 64).e)
        o = prims.new(r, "Siger", qb64=t, verfer=vf(r))
    elif ty in IDENT:
        d = said()
        m = {"v": vs(IDENT[ty], ONE, ZERO), "d": d, "i": "x", "a": {"n": 1}}
        o = r.call(W.method(ty, "new_with_ked"), r.ref(vals.val(m)), opt(None), opt(None))
    else:
        code = prims.PRIM[ty][1][0]
        g = {"qb64": prims.forms(code, symbytes("raw", prims.nraw(code)))[0]}
        if ty == "Cigar":
            g["verfer"] = vf(r)
        o = prims.new(r, ty, **g)
    return r, o


def vf(r):
    return prims.new(r, "Verfer", code=S("D"), raw=symbytes("vk", 32)).okv()


def values(W, r, ty, m):
    """values to set"""
    if m == "raw":
        return [symbytes("other", n) for n in (0, 1, 2, 31, 32, 33, 64, 200)]
    if m in ("code", "ident", "kind"):
        return [Seq(symchars("c", n)) for n in (1, 2, 4)] + [S(t) for t in ("", "E", "0D", "1AAG", "A", "2A", "ACDC", "KERI", "CBOR", "json", "\u00e9 ", "-A", "-_a0", " e", "e ", "e\0", "a\nb", "AbCd", "x" * 65)]
    if m in ("size", "index", "ondex"):
        return [0, 1, 63, 64, 4095, 4096, 2**24, 2**31, 2**32 - 1]
    if m == "ked":
        return [vals.val(x) for x in ({}, {"v": "x", "d": Seq(symchars("c", 4))}, {"b": 1, "a": [None, True]}, [], None)]
    if m == "version":
        return [version(W, a, b) for a in (0, 1, 2, 255) for b in (0, 1, 255)]
    if m == "saider":
        return [prims.new(r, "Saider", qb64=said(c, "other")).okv() for c in ("E", "F", "0D")]
    raise KeyError(m)


def trait(ty):
    return ("Indexer", INDEXER) if ty == "Siger" else ("Sadder", SADDER) if ty in IDENT else ("Matter", MATTER)


def read(ctx, r, ty, obj):
    W = ctx.W
    tr, names = trait(ty)
    out = {}
    for m in names:
        o = r.call(W.trait_method(ty, tr, m), obj)
        out[m] = None if o.never else r.deep(o.v)
    for m in MORE.get(ty, ()):
        o = r.call(W.method(ty, m), obj)
        out[m] = None if o.never else r.deep(o.v)
    return out


def one(ctx, ty, m):
    W = ctx.W
    tr, names = trait(ty)
    fi = W.trait_method(ty, tr, "set_" + m)
    n = len(values(W, W.run(oracle=prims.crypto_ok), ty, m))
    for i in range(n):
        for twice in (False, True):
            r, o = made(W, ty)
            key = "%s/%s/%d%s" % (ty, m, i, "/twice" if twice else "")
            x = ctx.must_ok(key + "/made", r, o, W.loc(fi), "a %s" % ty)
            if x is None:
                continue
            obj = r.ref(r.deep(x))
            before = read(ctx, r, ty, obj)
            vs_ = values(W, r, ty, m)
            want = r.deep(vs_[i])
            what = "%s::set_%s of %s%s" % (ty, m, short(want, 60), ", after another" if twice else "")
            bad = False
            for v in ([vs_[i - 1]] if twice else []) + [vs_[i]]:
                o = r.call(fi, obj, v if isinstance(v, int) else r.ref(v))
                bad = bad or o.never
            if bad:
                (ctx.fail if r.modelled() else ctx.unknown)(*([key, W.loc(fi), what + ": panics"] if r.modelled() else [key, what]))
                continue
            after = read(ctx, r, ty, obj)
            for k in before:
                w = want if k == m else before[k]
                if after[k] is None or w is None:
                    ctx.fail("%s/%s" % (key, k), W.loc(fi), "%s: %s() panics" % (what, k))
                else:
                    ctx.eq("%s/%s" % (key, k), r, after[k], w, W.loc(fi), "%s: %s()" % (what, k))
            ctx.seen(r)


def rebuilt(ctx, ty, code):
    """an object given other content by its setters has that content's qualified forms"""
    W = ctx.W
    r, o = made(W, ty)
    fi = W.trait_method(ty, trait(ty)[0], "set_raw")
    key = "%s/rebuilt/%s" % (ty, code)
    what = "a %s whose content was set to code %s" % (ty, code)
    x = ctx.must_ok(key + "/made", r, o, W.loc(fi), "a %s" % ty)
    if x is None:
        return
    obj = r.ref(r.deep(x))
    if ty == "Siger":
        n, os_, ss = idxlib.raw_len(code), spec.INDEXER[code][3], spec.INDEXER[code][2]
        raw = symbytes("other", n)
        cur = code in spec.CURRENT_ONLY
        ond = 0 if cur else 9 if os_ else 5
        t = idxlib.text(code, lib.b64int(5, ss - os_), lib.b64int(ond, os_), raw.e)
        fs = {"qb64": t, "qb64b": t, "qb2": lib.binary(t)}
        sets = (("code", r.ref(S(code))), ("raw", r.ref(raw)), ("index", 5), ("ondex", ond))
    else:
        n = prims.nraw(code)
        raw = symbytes("other", n)
        fs = prims.forms(code, raw)[1]
        sets = (("code", r.ref(S(code))), ("raw", r.ref(raw)), ("size", (n + spec.MATTER[code][3]) // 3 if spec.MATTER[code][4] is None else 0))
    for m, v in sets:
        r.call(W.trait_method(ty, trait(ty)[0], "set_" + m), obj, v)
    for m in ("qb64", "qb64b", "qb2"):
        v = ctx.must_ok("%s/%s" % (key, m), r, r.call(W.trait_method(ty, trait(ty)[0], m), obj), W.loc(fi), "%s: %s()" % (what, m))
        if v is not None:
            ctx.eq("%s/%s" % (key, m), r, r.deep(v), fs[m], W.loc(fi), "%s: %s()" % (what, m))
    ctx.seen(r)


def consistent(ty, code, n, size):
    """whether a material of n bytes with this size (or index) is content the code can have"""
    if ty == "Siger":
        return code in spec.INDEXER and n == idxlib.raw_len(code) and size < 64 ** (spec.INDEXER[code][2] - spec.INDEXER[code][3])
    if code not in spec.MATTER:
        return False
    hs, ss, ls, fs = spec.MATTER[code][1:]
    if fs is not None:
        return n == spec.raw_size(code)
    return (n + ls) % 3 == 0 and size == (n + ls) // 3 and size < 64 ** ss


def inconsistent(ctx, ty, code):
    """content no code can have is refused by every qualified form, never a panic or a text that means something else"""
    W = ctx.W
    fi = W.trait_method(ty, trait(ty)[0], "set_raw")
    ok = idxlib.raw_len(code) if ty == "Siger" and code in spec.INDEXER else prims.nraw(code) if ty != "Siger" and code in spec.MATTER else 0
    for n in sorted({0, 1, 2, 3, 4, 5, max(ok - 3, 0), max(ok - 1, 0), ok, ok + 1, ok + 2, ok + 3, 2 * ok}):
        for size in sorted({0, 1, 2, 3, 63, 64, 4096, 64 ** 4 - 1, 64 ** 4, 2**32 - 1}) if ty == "Siger" or code in spec.MATTER and spec.MATTER[code][4] is None else (0, 7):
            r, o = made(W, ty)
            key = "%s/content/%s/%d/%d" % (ty, code, n, size)
            what = "a %s whose content was set to code %s, %d bytes, size %d" % (ty, code, n, size)
            x = ctx.must_ok(key + "/made", r, o, W.loc(fi), "a %s" % ty)
            if x is None:
                return
            obj = r.ref(r.deep(x))
            sets = (("code", r.ref(S(code))), ("raw", r.ref(symbytes("other", n)))) + ((("index", size), ("ondex", size)) if ty == "Siger" else (("size", size),))
            for m, v in sets:
                r.call(W.trait_method(ty, trait(ty)[0], "set_" + m), obj, v)
            if ty == "Siger" and code in spec.INDEXER and spec.INDEXER[code][3] and size >= 64 ** spec.INDEXER[code][3]:
                want = False
            else:
                want = consistent(ty, code, n, size)
            for m in ("qb64", "qb2"):
                q = r.call(W.trait_method(ty, trait(ty)[0], m), obj)
                (ctx.must_ok if want else ctx.must_err)("%s/%s" % (key, m), r, q, W.loc(fi), "%s: %s()" % (what, m))
            if code in (spec.INDEXER if ty == "Siger" else spec.MATTER):
                ctx.must_ok(key + "/full_size", r, r.call(W.trait_method(ty, trait(ty)[0], "full_size"), obj), W.loc(fi), what + ": full_size()")
            ctx.seen(r)


def others(ctx, code):
    """an other index its code has no room for is refused by every qualified form, one it has room for is held"""
    W = ctx.W
    fi = W.trait_method("Siger", trait("Siger")[0], "set_ondex")
    n, ss, os_ = idxlib.raw_len(code), spec.INDEXER[code][2], spec.INDEXER[code][3]
    top = 64 ** os_
    for v in sorted(x for x in {0, 1, 63, 64, top - 1, top, top + 1, top + 5, 2 * top, 2 * top + 3, 64 ** 3, 64 ** 4, 1 << 16, 1 << 24, (1 << 31) + 1, (1 << 32) - 1} if x < 1 << 32):
        r, o = made(W, "Siger")
        key = "Siger/ondex/%s/%d" % (code, v)
        what = "a Siger whose content was set to code %s, index 1 and other index %d" % (code, v)
        x = ctx.must_ok(key + "/made", r, o, W.loc(fi), "a Siger")
        if x is None:
            return
        obj = r.ref(r.deep(x))
        raw = symbytes("other", n)
        for m, u in (("code", r.ref(S(code))), ("raw", r.ref(raw)), ("index", 1), ("ondex", v)):
            r.call(W.trait_method("Siger", trait("Siger")[0], "set_" + m), obj, u)
        for m in ("qb64", "qb64b", "qb2"):
            q = r.call(W.trait_method("Siger", trait("Siger")[0], m), obj)
            if v >= top:
                ctx.must_err("%s/%s" % (key, m), r, q, W.loc(fi), "%s: %s()" % (what, m))
            elif code not in spec.CURRENT_ONLY or v == 0:
                y = ctx.must_ok("%s/%s" % (key, m), r, q, W.loc(fi), "%s: %s()" % (what, m))
                if y is not None:
                    t = idxlib.text(code, lib.b64int(1, ss - os_), lib.b64int(v, os_), raw.e)
                    ctx.eq("%s/%s" % (key, m), r, r.deep(y), lib.binary(t) if m == "qb2" else t, W.loc(fi), "%s: %s()" % (what, m))
        ctx.seen(r)


def check(ctx):
    ctx.pmap(others, [(c,) for c in spec.INDEXER if c in prims.SIGER_CODES and spec.INDEXER[c][3]])
    ctx.pmap(inconsistent, [(ty, c) for ty in ("Verfer", "Signer", "Bexter", "Cigar") for c in list(spec.MATTER) + ["", "Z", "-A"]] + [("Siger", c) for c in list(spec.INDEXER) + ["", "Z", "-A"]])
    ctx.pmap(rebuilt, [(ty, c) for ty in prims.PRIM for c in spec.MATTER] + [("Siger", c) for c in prims.SIGER_CODES])
    tys = list(prims.PRIM) + ["Siger"] + list(IDENT)
    ctx.pmap(one, [(ty, m) for ty in tys for m in trait(ty)[1]])
