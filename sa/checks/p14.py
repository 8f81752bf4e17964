"""sign_indexed picks the indexed code that the seed's suite, the index, the other index and the current-only flag call for:
small codes only when the indices coincide and fit one sextet, current-only codes carry no other index, everything else uses
the large dual-index code; index, other index, raw signature and verifier are those asked for, decoding the text restores
them, and indices no code of the suite can carry are refused."""
import lib
import msgs
import prims
import sigs
import spec
from domain import Agg, S, Seq, symbytes, symbit
from matterlib import opt
from pathlib_ import oks, same

RULE = "one obligation per (seed code, flag, index class, other-index class) and observed accessor; indices are symbolic within a class"
FLOOR = 150

# index classes: name, value, non-zero facts, sextets needed
def classes(tag):
    small = lib.symint(tag + "s", 6)
    big = lib.symint(tag + "b", 12)
    huge = lib.symint(tag + "h", 32)
    return {
        "small": (small, (), 1),
        "63": (63, (), 1),
        "0": (0, (), 1),
        "64": (64, (), 2),
        "4095": (4095, (), 2),
        "mid": (big, (frozenset(symbit(tag + "b", i) for i in range(6, 12)),), 2),
        "4096": (4096, (), 3),
        "2^16": (1 << 16, (), 3),
        "2^24-1": ((1 << 24) - 1, (), 4),
        "2^24": (1 << 24, (), 5),
        "2^31": (1 << 31, (), 6),
        "2^32-1": ((1 << 32) - 1, (), 6),
        "huge": (huge, (frozenset(symbit(tag + "h", i) for i in range(12, 32)),), 3),
    }


def one(ctx, code, only, ic, oc):
    W = ctx.W
    name = sigs.SUITE[code][5]
    key = symbytes("seed", 32)
    ci = classes("i")
    idx, nz, ni = ci[ic]
    if oc == "none":
        ond, no = None, ni
    elif oc == "same":
        ond, no = idx, ni
    else:
        co = classes("o")
        ond, nz2, no = co[oc]
        nz = nz + nz2
    k = "%s/%s/%s/%s" % (code, "current" if only else "both", ic, oc)
    what = "sign_indexed(only=%s, index %s, ondex %s) with a seed of code %s" % (bool(only), ic, oc, code)
    if only:
        want = name + ("_Crt" if ni == 1 else "_Big_Crt")
        bad = ni > 2
        wo = None
    else:
        same = oc in ("none", "same")
        distinct = not same and type(idx) is int and type(ond) is int and idx != ond or (not same and ni != no)
        if not same and not distinct:
            # the two symbolic indices may coincide: only the carried values are specified
            want = None if ni == 1 and no == 1 else name + "_Big"
        else:
            want = name if same and ni == 1 else name + "_Big"
        bad = ni > 2 or no > 2
        wo = idx if same else ond
    if want is None:
        return
    fi = W.method("Signer", "sign_indexed")
    where = W.loc(fi)
    r = W.run(nz=nz, oracle=prims.crypto_ok)
    so = r.ref(sigs.signer(ctx, r, code, key).okv())
    o = r.call(fi, so, sigs.ser(r), only, idx, opt(ond))
    if bad:
        ctx.must_err(k, r, o, where, what)
        ctx.seen(r)
        return
    x = ctx.must_ok(k, r, o, where, what)
    if x is not None:
        go = r.ref(x)
        c = sigs.ICODE[want]
        ctx.eq(k + "/code", r, r.get(go, "Siger", "code"), S(c), where, what + ": code()")
        ctx.eq(k + "/raw", r, r.get(go, "Siger", "raw"), sigs.sig(code, key), where, what + ": raw()")
        ctx.eq(k + "/index", r, r.get(go, "Siger", "index"), idx, where, what + ": index()")
        if wo is not None:
            ctx.eq(k + "/ondex", r, r.get(go, "Siger", "ondex"), wo, where, what + ": ondex()")
        vf = r.ref(r.get(go, "Siger", "verfer"))
        ctx.eq(k + "/verfer-raw", r, r.get(vf, "Verfer", "raw"), sigs.pub(code, key), where, what + ": verfer().raw()")
        ctx.eq(k + "/verfer-code", r, r.get(vf, "Verfer", "code"), S(sigs.SUITE[code][3]), where, what + ": verfer().code()")
        q = r.call(W.method("Siger", "qb64"), go)
        if q.okv() is not None and not isinstance(idx, Sizer):
            n, hs, ss, os_, ls, fs = spec.INDEXER[c]
            t = lib.text(c, digits(idx, ss - os_) + (digits(wo, os_) if os_ and wo is not None else lib.b64int(0, os_)), sigs.sig(code, key).e, ls)
            ctx.eq(k + "/qb64", r, r.deep(q.okv()), t, where, what + ": qb64()")
        else:
            ctx.unknown(k + "/qb64", "text form not decided")
    ctx.seen(r)


def messages(ctx, code, only, idx, ond, want):
    """the indexed signature is over exactly the given message"""
    W = ctx.W
    key = symbytes("seed", 32)
    fi = W.method("Signer", "sign_indexed")
    for n, m in msgs.some(ctx.thorough).items() if idx == 0 else msgs.few().items():
        r = W.run(oracle=prims.crypto_ok)
        so = r.ref(sigs.signer(ctx, r, code, key).okv())

        def held(p, k, w, bad, x):
            go = r.ref(x)
            same(ctx, p, k + "/code", w, bad, r.get(go, "Siger", "code"), S(sigs.ICODE[sigs.SUITE[code][5] + want]), "code()")
            same(ctx, p, k + "/raw", w, bad, r.get(go, "Siger", "raw"), sigs.sig(code, key, m), "raw()")
            same(ctx, p, k + "/index", w, bad, r.get(go, "Siger", "index"), idx, "index()")
        oks(ctx, "%s%s/message-%s" % (code, want, n), r, fi, [so, r.ref(m), only, idx, opt(ond)], "sign_indexed of the message %s with a seed of code %s" % (n, code), held)


class Sizer:
    pass


def digits(v, w):
    return lib.b64int(v, w) if isinstance(v, int) else lib.b64bits(v, w)


def check(ctx):
    items = []
    cl = list(classes("i"))
    for code in sigs.SUITE:
        for ic in cl:
            items.append((code, 1, ic, "none"))
            items.append((code, 1, ic, "5x"))
            for oc in ["none", "same"] + cl:
                items.append((code, 0, ic, oc))
    items = [i for i in items if i[3] != "5x"]
    ctx.pmap(one, items)
    ctx.pmap(messages, [(c,) + x for c in sigs.SUITE for x in ((0, 0, None, ""), (1, 0, None, "_Crt"), (0, 5, 9, "_Big"), (1, 100, None, "_Big_Crt"), (0, 64, 64, "_Big"))])
