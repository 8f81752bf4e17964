"""Generated secrets are fresh, full-length output of the operating system's generator: generated seeds and salts are exactly the bytes drawn (every
byte, once), weak keys are drawn again, two generations draw twice, and no other source of randomness or of signature nonces is used."""
import prims
import sigs
from domain import S, Seq
from matterlib import opt
from pathlib_ import errs, oks

RULE = "one obligation per (generating constructor, code / tier / transferability) and observer; the generator's output is an unknown term per call"
FLOOR = 60


def is_os(t):
    return "OsRng" in str(t)


def source(ctx, k, r, p, fi, what, want_calls):
    ev = [i for n, i in r.I.trace if n == "rng"]
    W = ctx.W
    if not r.modelled():
        return ctx.unknown(k + "/source", what + ": unmodelled " + str(sorted(map(str, r.I.unmodelled))[:3]))
    ctx.require(k + "/source", all(is_os(i[1]) for i in ev), W.loc(fi), "%s draws randomness from %s" % (what, sorted({str(i[1]) for i in ev})))
    ctx.require(k + "/draws", len(ev) == want_calls, W.loc(fi), "%s draws randomness %d times, expected %d" % (what, len(ev), want_calls))


def fresh(v, n):
    """v is one whole generator output of n bytes: (True/False/None, id)"""
    if type(v) is not Seq or v.chunked:
        return None, None
    if len(v.e) != n:
        return False, None
    from domain import Bits, bitname
    ids = []
    for j, e in enumerate(v.e):
        if type(e) is int:
            return False, None
        if type(e) is not Bits:
            return None, None
        for b, x in enumerate(e.b[:8]):
            if type(x) is int and x in (0, 1):
                return False, None
            if x == -1:
                return None, None
            ids.append(x)
    if len(set(ids)) != len(ids):
        return False, None
    names = {str(bitname(x)).split("random", 1)[-1].rsplit(",", 1)[0][:40] if "random" in str(bitname(x)) else None for x in ids}
    if None in names:
        return None, None
    return True, tuple(ids)


def salts(ctx, tier):
    W = ctx.W
    for name in ("new", "new_with_defaults"):
        r = W.run()
        fi = W.method("Salter", name)
        got = []
        for n in range(2):
            o = r.call(fi, *(([opt(r.s(tier) if tier else None)]) + ([opt(None)] * 5 if name == "new" else [])))
            what = "Salter::%s without material, tier %s" % (name, tier)
            k = "salt/%s/%s/%d" % (name, tier, n)
            v = ctx.must_ok(k, r, o, W.loc(fi), what)
            if v is None:
                break
            v = r.ref(v)
            raw = r.get(v, "Salter", "raw")
            judge(ctx, k, r, fi, raw, 16, what, got)
            ctx.eq(k + "/code", r, r.get(v, "Salter", "code"), S("0A"), W.loc(fi), what + ": code()")
        source(ctx, "salt/%s/%s" % (name, tier), r, None, fi, "two calls of " + what, 2)
        ctx.seen(r)


def judge(ctx, k, r, fi, raw, n, what, got):
    f, ids = fresh(raw, n)
    W = ctx.W
    if f is None or not r.modelled():
        ctx.unknown(k + "/raw", what + ": raw material not understood")
        return
    ctx.require(k + "/raw", f, W.loc(fi), "%s: its raw material is not %d bytes of generator output" % (what, n))
    if f:
        ctx.require(k + "/once", not any(set(ids) & set(g) for g in got), W.loc(fi), "%s: reuses generator output of an earlier call" % what)
        got.append(ids)


def seeds(ctx, code, tr, weak):
    """weak: number of weak keys drawn first"""
    W = ctx.W
    for name in ("new", "new_with_defaults"):
        seen = []

        def oracle(kind, ins):
            if kind == "weak":
                if ins not in seen:
                    seen.append(ins)
                return seen.index(ins) < weak
            return True
        r = W.run(oracle=oracle)
        fi = W.method("Signer", name)
        got = []
        what = "Signer::%s of code %s without material" % (name, code)
        k = "seed/%s/%s/%s/%d" % (name, code, tr, weak)
        for n in range(2 if not weak else 1):
            args = [opt(tr), opt(r.s(code) if code else None)] + ([opt(None)] * 4 if name == "new" else [])
            o = r.call(fi, *args)
            v = ctx.must_ok("%s/%d" % (k, n), r, o, W.loc(fi), what)
            if v is None:
                break
            v = r.ref(v)
            raw = r.get(v, "Signer", "raw")
            judge(ctx, "%s/%d" % (k, n), r, fi, raw, 32, what, got)
            ctx.eq("%s/%d/code" % (k, n), r, r.get(v, "Signer", "code"), S(code or "A"), W.loc(fi), what + ": code()")
            if weak and r.modelled():
                vf = r.get(v, "Signer", "verfer")
                pk = r.get(r.ref(vf), "Verfer", "raw")
                bad = [i for i in seen[:weak] if pk in i[0:1] or getattr(i[0], "f", (None, None))[-1] == pk]
                ctx.require("%s/%d/weak" % (k, n), not bad, W.loc(fi), what + ": the seed of a weak key is used")
        source(ctx, k, r, None, fi, ("two calls of " if not weak else "") + what, (1 + weak) if weak else 2)
        ctx.seen(r)


def nonces(ctx, code):
    W = ctx.W
    r = W.run(oracle=prims.oracle_strong)
    from domain import symbytes
    o = sigs.signer(ctx, r, code, symbytes("key", 32))
    k = "nonce/%s" % code
    fi = W.method("Signer", "sign_unindexed")
    v = ctx.must_ok(k, r, o, W.loc(fi), "Signer of code %s" % code)
    if v is None:
        return
    v = r.ref(v)
    f2 = W.method("Signer", "sign_indexed")
    ctx.must_ok(k + "/sign", r, r.call(fi, v, sigs.ser(r)), W.loc(fi), "sign_unindexed of code %s" % code)
    ctx.must_ok(k + "/signi", r, r.call(f2, v, sigs.ser(r), 0, 1, opt(None)), W.loc(f2), "sign_indexed of code %s" % code)
    ev = [i for n, i in r.I.trace if n == "nonce"]
    if r.modelled():
        ctx.require(k + "/source", all(is_os(i[1]) for i in ev), W.loc(fi), "signing with code %s takes nonces from %s" % (code, sorted({str(i[1]) for i in ev})))
    else:
        ctx.unknown(k + "/source", "unmodelled")
    ctx.seen(r)


def empty(ctx, ty, form, code):
    """empty or short material is material that is refused, not a wish for fresh material"""
    W = ctx.W
    fi = W.method(ty, "new")
    params = prims.PRIM[ty][0]
    for n in (0, 1, 3):
        r = W.run(oracle=prims.crypto_ok)
        given = {form: Seq((65,) * n)}
        if code:
            given["code"] = S(code)
        errs(ctx, "empty/%s/%s/%s/%d" % (ty, form, code, n), r, fi, prims.args(r, params, given), "%s::new of %d bytes of %s (code %s)" % (ty, n, form, code))


def check(ctx):
    ctx.pmap(empty, [(ty, f, c) for ty, cs in (("Signer", [None] + list(sigs.SUITE)), ("Salter", (None, "0A"))) for f in ("raw", "qb64b", "qb64", "qb2") for c in cs])
    ctx.pmap(salts, [(t,) for t in (None, "low", "med", "high")])
    ctx.pmap(seeds, [(c, t, 0) for c in list(sigs.SUITE) + [None] for t in (None, 0, 1)] + [("A", None, w) for w in (1, 2)])
    ctx.pmap(nonces, [(c,) for c in sigs.SUITE])
