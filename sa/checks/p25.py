"""Key stretching is the fixed KERI profile of Argon2id: the tier selects memory and passes, path is the password, the salt material the salt,
and the output has the asked length; temporary keys use the minimal tier only when asked; unknown tiers and failures are errors."""
import kdf
import lib
import prims
from domain import S, Seq, symbytes
from lib import symchars
from matterlib import opt
from pathlib_ import errs, oks, same

RULE = "one obligation per (tier, tier source, temp flag, path, size); salt bytes and path characters unknown; Argon2 an uninterpreted function of algorithm, version, costs, password, salt and length"
FLOOR = 300
TIERS = ("low", "med", "high", "min")
PATHS = {"default": None, "empty": "", "text": "signify:controller", "one": Seq(symchars("p", 1)), "long": Seq(symchars("p", 70)), "wide": "\u00e9\u20ac"}


def salter(r, tier=None, tag="salt"):
    g = {"code": S("0A"), "raw": symbytes(tag, 16)}
    if tier is not None:
        g["tier"] = S(tier)
    return r.ref(prims.new(r, "Salter", **g).okv())


def ok(kind, ins):
    return True


def stretch(ctx, own, given, temp):
    """the salter's tier, the tier asked for, the temp flag"""
    W = ctx.W
    fi = W.method("Salter", "stretch")
    tier = "min" if temp else given or own or "low"
    for size in (None, 4, 32, 64, 128, 33):
        for pn, path in PATHS.items():
            if size not in (None, 32, 64) and pn not in ("text", "long"):
                continue
            r = W.run(oracle=ok)
            x = salter(r, own)
            k = "stretch/%s/%s/%s/%s/%s" % (own, given, temp, size, pn)
            what = "Salter::stretch of a salter of tier %s, asked for tier %s, temp %s, size %s, path %s" % (own, given, temp, size, pn)
            want = kdf.stretched(path or "", symbytes("salt", 16), size or 32, tier)
            args = [x, opt(size), opt(r.ref(kdf.text(path)) if path is not None else None), opt(r.s(given) if given else None), opt(temp)]
            oks(ctx, k, r, fi, args, what, lambda p, kk, w, bad, v: same(ctx, p, kk + "/key", w, bad, v, want, "the stretched key"))


def odd(ctx, i, temp):
    """texts a normalisation would change are stretched as they are"""
    path = lib.ODD[i]
    r = ctx.W.run(oracle=ok)
    what = "Salter::stretch along the path %r (temp %s)" % (path, temp)
    want = kdf.stretched(path, symbytes("salt", 16), 32, "min" if temp else "low")
    oks(ctx, "odd/%d/%s" % (i, temp), r, ctx.W.method("Salter", "stretch"), [salter(r), opt(None), opt(r.s(path)), opt(None), opt(temp)], what,
        lambda p, kk, w, bad, v: same(ctx, p, kk + "/key", w, bad, v, want, "the stretched key"))


def lengthy(ctx, n, temp):
    """every byte of a long path counts"""
    path = ("path/%d-" % n * n)[:n]
    r = ctx.W.run(oracle=ok)
    what = "Salter::stretch along a path of %d bytes (temp %s)" % (n, temp)
    want = kdf.stretched(path, symbytes("salt", 16), 32, "min" if temp else "low")
    oks(ctx, "lengthy/%d/%s" % (n, temp), r, ctx.W.method("Salter", "stretch"), [salter(r), opt(None), opt(r.s(path)), opt(None), opt(temp)], what,
        lambda p, kk, w, bad, v: same(ctx, p, kk + "/key", w, bad, v, want, "the stretched key"))


def refused(ctx, tier, how):
    W = ctx.W
    fi = W.method("Salter", "stretch")
    r = W.run(oracle=ok)
    x = salter(r, tier if how == "own" else None)
    errs(ctx, "refused/%s/%r" % (how, tier), r, fi, [x, opt(None), opt(r.s("path")), opt(r.s(tier) if how == "given" else None), opt(0)],
         "Salter::stretch with the tier %r (%s)" % (tier, how))


def failing(ctx, tier, size):
    """failures of the key derivation are errors, never a key"""
    W = ctx.W
    fi = W.method("Salter", "stretch")
    r = W.run(oracle=lambda kind, ins: False if kind == "argon" else True)
    errs(ctx, "failing/%s/%s" % (tier, size), r, fi, [salter(r, tier), opt(size), opt(r.s("path")), opt(None), opt(None)], "Salter::stretch when Argon2 fails, tier %s" % tier)
    if size == 32:
        for n in (0, 1, 3):
            r = W.run(oracle=ok)
            errs(ctx, "short/%s/%s" % (tier, n), r, fi, [salter(r, tier), opt(n), opt(r.s("path")), opt(None), opt(None)], "Salter::stretch to %d bytes, tier %s" % (n, tier))
        r = W.run(oracle=lambda kind, ins: False if kind == "argon" else True)
        errs(ctx, "failing/signer/%s" % tier, r, W.method("Salter", "signer"), [salter(r, tier), opt(None), opt(None), opt(r.s("path")), opt(None), opt(None)],
             "Salter::signer when Argon2 fails, tier %s" % tier)
        r = W.run(oracle=lambda kind, ins: False if kind == "argon" else True)
        errs(ctx, "failing/signers/%s" % tier, r, W.method("Salter", "signers"), [salter(r, tier), opt(3)] + [opt(None)] * 6, "Salter::signers when Argon2 fails, tier %s" % tier)


def check(ctx):
    ctx.pmap(stretch, [(o, g, t) for o in (None,) + TIERS for g in (None,) + TIERS for t in (None, 0, 1)])
    ctx.pmap(odd, [(i, t) for i in range(len(lib.ODD)) for t in (None, 1)])
    ctx.pmap(lengthy, [(n, t) for n in (255, 256, 257, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537) for t in (None, 1)])
    ctx.pmap(refused, [(t, h) for t in ("", "LOW", "lo", "lowest", "none", "max", "medium", " low", "0") for h in ("own", "given")])
    ctx.pmap(failing, [(t, s) for t in TIERS for s in (32, 64)])
