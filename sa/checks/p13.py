"""A signer's public key, its signatures and a verifier's verification use the algorithm its code names: for every seed code
and all seed bytes the verifier holds the public key that suite derives from those bytes under the code of that suite and
transferability, and sign_unindexed yields that suite's signature over the given message under that suite's signature code,
carrying the signer's verifier."""
import msgs
import prims
import sigs
from domain import Obj, S, Seq, symbytes
from pathlib_ import oks, same

RULE = "one obligation per (seed code, input form, transferability, accessor); crypto primitives are uninterpreted functions of key and message"
FLOOR = 60


def one(ctx, code, form, tr):
    W = ctx.W
    cv, npub, nt, t, sc, iname = sigs.SUITE[code]
    key = symbytes("seed", 32)
    g = {form: prims.forms(code, key)[1][form]}
    if form == "raw":
        g["code"] = S(code)
    if tr is not None:
        g["transferable"] = tr
    r = W.run(oracle=prims.crypto_ok)
    where = W.loc(W.method("Signer", "new"))
    k = "%s/%s/%s" % (code, form, {None: "default", 0: "nontransferable", 1: "transferable"}[tr])
    what = "Signer of code %s (%s)" % (code, {None: "default transferability", 0: "non-transferable", 1: "transferable"}[tr])
    x = ctx.must_ok(k, r, prims.new(r, "Signer", **g), where, "constructing a " + what)
    if x is None:
        ctx.seen(r)
        return
    so = r.ref(x)
    ctx.eq(k + "/raw", r, r.get(so, "Signer", "raw"), key, where, what + ": raw()")
    vcode = nt if tr == 0 else t
    vf = r.ref(r.get(so, "Signer", "verfer"))
    ctx.eq(k + "/verfer-code", r, r.get(vf, "Verfer", "code"), S(vcode), where, what + ": verfer().code()")
    ctx.eq(k + "/verfer-raw", r, r.get(vf, "Verfer", "raw"), sigs.pub(code, key), where, what + ": verfer().raw()")
    fi = W.method("Signer", "sign_unindexed")
    o = r.call(fi, so, sigs.ser(r))
    w2 = W.loc(fi)
    c = ctx.must_ok(k + "/sign", r, o, w2, what + ": sign_unindexed")
    if c is not None:
        co = r.ref(c)
        ctx.eq(k + "/sign/code", r, r.get(co, "Cigar", "code"), S(sc), w2, what + ": sign_unindexed().code()")
        ctx.eq(k + "/sign/raw", r, r.get(co, "Cigar", "raw"), sigs.sig(code, key), w2, what + ": sign_unindexed().raw()")
        cv_ = r.ref(r.get(co, "Cigar", "verfer"))
        ctx.eq(k + "/sign/verfer-code", r, r.get(cv_, "Verfer", "code"), S(vcode), w2, what + ": sign_unindexed().verfer().code()")
        ctx.eq(k + "/sign/verfer-raw", r, r.get(cv_, "Verfer", "raw"), sigs.pub(code, key), w2, what + ": sign_unindexed().verfer().raw()")
    ctx.seen(r)


def messages(ctx, code, tr):
    """the signature is over exactly the given message, whatever its length and contents"""
    W = ctx.W
    cv, npub, nt, t, sc, iname = sigs.SUITE[code]
    key = symbytes("seed", 32)
    fi = W.method("Signer", "sign_unindexed")
    for n, m in msgs.some(ctx.thorough).items() if tr is None else msgs.few().items():
        r = W.run(oracle=prims.crypto_ok)
        so = r.ref(sigs.signer(ctx, r, code, key, tr).okv())

        def held(p, k, w, bad, x):
            co = r.ref(x)
            same(ctx, p, k + "/code", w, bad, r.get(co, "Cigar", "code"), S(sc), "code()")
            same(ctx, p, k + "/raw", w, bad, r.get(co, "Cigar", "raw"), sigs.sig(code, key, m), "raw()")
            vf = r.ref(r.get(co, "Cigar", "verfer"))
            same(ctx, p, k + "/verfer", w, bad, r.get(vf, "Verfer", "raw"), sigs.pub(code, key), "verfer().raw()")
        oks(ctx, "%s/%s/message-%s" % (code, tr, n), r, fi, [so, r.ref(m)], "sign_unindexed of the message %s with a seed of code %s" % (n, code), held)


def generated(ctx, code, tr):
    """a generated seed of every suite: the seed is the suite's fresh private key and the verifier belongs to it"""
    W = ctx.W
    cv, npub, nt, t, sc, iname = sigs.SUITE[code]
    fi = W.method("Signer", "new_with_defaults")
    from matterlib import opt
    r = W.run(oracle=prims.oracle_strong)
    o = r.call(fi, opt(tr), opt(r.s(code)))
    k = "%s/generated/%s" % (code, tr)
    what = "generated Signer of code %s" % code
    x = ctx.must_ok(k, r, o, W.loc(fi), what)
    if x is not None:
        so = r.ref(x)
        ctx.eq(k + "/code", r, r.get(so, "Signer", "code"), S(code), W.loc(fi), what + ": code()")
        key = r.get(so, "Signer", "raw")
        vf = r.ref(r.get(so, "Signer", "verfer"))
        ctx.eq(k + "/verfer-code", r, r.get(vf, "Verfer", "code"), S(nt if tr == 0 else t), W.loc(fi), what + ": verfer().code()")
        ctx.eq(k + "/verfer-raw", r, r.get(vf, "Verfer", "raw"), sigs.pub(code, key), W.loc(fi), what + ": verfer().raw()")
        kinds = [sigs.curve_of(i[0]) for n, i in r.I.trace if n == "rng"]
        if kinds and r.modelled():
            ctx.require(k + "/suite", all(c == cv for c in kinds), W.loc(fi), "%s draws its key for %s" % (what, kinds))
        else:
            ctx.unknown(k + "/suite", "no generation recorded")
    ctx.seen(r)


def check(ctx):
    ctx.pmap(one, [(c, f, t) for c in sigs.SUITE for f in ("raw", "qb64b", "qb64", "qb2") for t in (None, 0, 1)])
    ctx.pmap(messages, [(c, t) for c in sigs.SUITE for t in (None, 0, 1)])
    ctx.pmap(generated, [(c, t) for c in sigs.SUITE for t in (None, 0, 1)])
