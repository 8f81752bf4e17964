"""Deterministic signer derivation: signer stretches the salt along exactly the given path to the seed of the given code; signers derives, in order,
one signer per index along path plus the index in hexadecimal; code, transferability, tier and temp are in effect for every one of them."""
import kdf
import lib
import prims
import sigs
import spec
from checks.p25 import ok, salter
from domain import S, Seq, mkbits, symbit, symbytes
from lib import symchars
from matterlib import opt
from pathlib_ import errs, oks, same

RULE = "one obligation per (operation, code, transferability, tier, path, index); salt, path characters and low index bits unknown; Argon2 and key derivation uninterpreted functions"
FLOOR = 400
SALT = symbytes("salt", 16)


def vcode(code, tr):
    return sigs.SUITE[code][3 if tr is None or tr else 2]


def judge_signer(ctx, q, p, kk, w, bad, x, code, tr, seed):
    o = q.ref(x)
    same(ctx, p, kk + "/code", w, bad, q.get(o, "Signer", "code"), S(code), "the signer's code")
    same(ctx, p, kk + "/raw", w, bad, q.get(o, "Signer", "raw"), seed, "the signer's seed")
    v = q.ref(q.get(o, "Signer", "verfer"))
    same(ctx, p, kk + "/verfer-code", w, bad, q.get(v, "Verfer", "code"), S(vcode(code, tr)), "the verifier's code")
    same(ctx, p, kk + "/verfer-raw", w, bad, q.get(v, "Verfer", "raw"), sigs.pub(code, seed), "the public key")


def asked(r, code, tr, path, tier, temp):
    return [opt(r.s(code) if code is not None else None), opt(tr), opt(r.ref(kdf.text(path)) if path is not None else None), opt(r.s(tier) if tier is not None else None), opt(temp)]


def signer(ctx, code, tr, own, tier, temp):
    W = ctx.W
    fi = W.method("Salter", "signer")
    eff = "min" if temp else tier or own or "low"
    for pn, path in (("none", None), ("empty", ""), ("text", "path:0"), ("unknown", Seq(symchars("p", 23)))):
        r = W.run(oracle=prims.crypto_ok)
        x = salter(r, own)
        c = code or "A"
        seed = kdf.stretched(path or "", SALT, 32, eff)
        k = "signer/%s/%s/%s/%s/%s/%s" % (code, tr, own, tier, temp, pn)
        what = "Salter::signer (code %s, transferable %s, own tier %s, tier %s, temp %s, path %s)" % (code, tr, own, tier, temp, pn)
        oks(ctx, k, r, fi, [x] + asked(r, code, tr, path, tier, temp), what, lambda p, kk, w, bad, v: judge_signer(ctx, p.run, p, kk, w, bad, v, c, tr, seed))


def odd(ctx, i, n):
    """texts a normalisation would change are paths as they are: for one signer (n 0) or n of them"""
    W = ctx.W
    path = lib.ODD[i]
    r = W.run(oracle=prims.crypto_ok)
    x = salter(r)
    a = asked(r, None, None, path, None, None)
    if not n:
        oks(ctx, "odd/signer/%d" % i, r, W.method("Salter", "signer"), [x] + a, "Salter::signer along the path %r" % path,
            lambda p, kk, w, bad, v: judge_signer(ctx, p.run, p, kk, w, bad, v, "A", None, kdf.stretched(path, SALT, 32, "low")))
        return

    def judge(p, kk, w, bad, v):
        if type(v) is not Seq or v.chunked or len(v.e) != n:
            (bad if type(v) is Seq and not v.chunked else ctx.unknown)(kk + "/count", "%s: not %d signers" % (w, n))
            return
        for j, s in enumerate(v.e):
            judge_signer(ctx, p.run, p, "%s/%d" % (kk, j), "%s: signer %d" % (w, j), bad, s, "A", None, kdf.stretched(path + "%x" % j, SALT, 32, "low"))
    oks(ctx, "odd/signers/%d" % i, r, W.method("Salter", "signers"), [x, opt(n), opt(None), a[2], a[0], a[1], a[3], a[4]], "Salter::signers along the path %r" % path, judge)


def hexof(n):
    return S("%x" % n)


def signers(ctx, sname, start, count, code, tr, tier, temp, pn):
    W = ctx.W
    fi = W.method("Salter", "signers")
    path = {"none": None, "empty": "", "text": "path/", "digit": "a0", "unknown": Seq(symchars("p", 12)), "long": ("path/%d-" % 7 * 300)[:1500]}[pn]
    r = W.run(oracle=prims.crypto_ok)
    x = salter(r, "med")
    eff = "min" if temp else tier or "med"
    n = 1 if count is None else count
    k = "signers/%s/%s/%s/%s/%s/%s/%s" % (sname, count, code, tr, tier, temp, pn)
    what = "Salter::signers (start %s, count %s, code %s, transferable %s, tier %s, temp %s, path %s)" % (sname, count, code, tr, tier, temp, pn)
    a = asked(r, code, tr, path, tier, temp)
    args = [x, opt(count), opt(start), a[2], a[0], a[1], a[3], a[4]]
    base = kdf.text(path or "").e

    def judge(p, kk, w, bad, v):
        if type(v) is not Seq or v.chunked:
            ctx.unknown(kk + "/list", w)
            return
        if len(v.e) != n:
            bad(kk + "/count", "%s: %d signers, expected %d" % (w, len(v.e), n))
            return
        ctx.ok(kk + "/count")
        for i, s in enumerate(v.e):
            seed = kdf.stretched(Seq(base + hexof((start or 0) + i).e), SALT, 32, eff)
            judge_signer(ctx, p.run, p, "%s/%d" % (kk, i), "%s: signer %d" % (w, i), bad, s, code or "A", tr, seed)
    oks(ctx, k, r, fi, args, what, judge)


def refused(ctx, code):
    W = ctx.W
    r = W.run(oracle=prims.crypto_ok)
    errs(ctx, "refused/signer/%s" % code, r, W.method("Salter", "signer"), [salter(r)] + asked(r, code, None, "path", None, None), "Salter::signer with code %r" % code)
    r = W.run(oracle=prims.crypto_ok)
    a = asked(r, code, None, "path", None, None)
    errs(ctx, "refused/signers/%s" % code, r, W.method("Salter", "signers"), [salter(r), opt(2), opt(None), a[2], a[0], a[1], a[3], a[4]], "Salter::signers with code %r" % code)


def tier(ctx, t):
    W = ctx.W
    r = W.run()
    x = salter(r, t)
    v = r.get(x, "Salter", "tier")
    ctx.eq("tier/%s" % t, r, v, S(t or "low"), W.loc(W.method("Salter", "tier")), "Salter::tier of a salter made with tier %s" % t)


def check(ctx):
    codes = [None] + list(sigs.SUITE)
    ctx.pmap(signer, [(c, tr, o, t, tp) for c in codes for tr in (None, 0, 1) for o, t in ((None, None), ("high", None), ("high", "med"), (None, "min")) for tp in (None, 0, 1)])
    ctx.pmap(odd, [(i, n) for i in range(len(lib.ODD)) for n in (0, 1)])
    items = []
    for n in (None, 0, 1, 9, 10, 14, 15, 16, 31, 99, 254, 255, 256, 4094, 65535, 1 << 32, (1 << 63) + 10):
        for c in (None, 0, 1, 3):
            items.append((str(n), n, c, None, None, None, None, "text"))
    for c in codes:
        for tr in (None, 0, 1):
            for t in (None, "low", "high"):
                for tp in (None, 0, 1):
                    items.append(("7", 7, 2, c, tr, t, tp, "text"))
    items += [("0", 0, n, None, 0, "high", None, "text") for n in (64, 260)] + [("250", 250, 70, None, 1, None, 1, "text")]
    for pn in ("none", "empty", "digit", "unknown", "long"):
        items.append(("0", 0, 20, None, None, None, None, pn))
        items.append(("250", 250, 12, "J", 0, "low", None, pn))
    for n in lib.around(ctx.W, ("src/core/salter.rs", "src/core/signer.rs"), lo=4, hi=1 << 40):
        items.append(("%d" % n, n, 2, None, None, None, None, "text"))
        if n < 100:
            items.append(("3", 3, n, None, None, None, None, "text"))
    ctx.pmap(signers, items)
    ctx.pmap(refused, [(c,) for c in spec.MATTER if c not in sigs.SUITE and spec.MATTER[c][4] is not None] + [("",), ("Z",)])
    ctx.pmap(tier, [(t,) for t in (None, "low", "med", "high", "min")])
