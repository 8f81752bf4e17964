"""Secrets are wiped: dropping a signer or a salter wipes its seed or salt, and while constructing, encoding, decoding, signing and stretching no
working copy of the secret is released without being wiped. Decided on the drop-elaborated MIR: the abstract value of every place at its drop, of
named stack arrays at return and of buffers that are cleared or truncated is inspected for the secret's symbolic bits."""
import lib
import matterlib as ml
import prims
import sigs
from domain import Agg, Alt, Bits, Ch, Obj, OneOf, Ref, S, Seq, Clo, bitname, symbytes
from matterlib import opt

RULE = "one obligation per (operation, form, code): no released place holds 32 or more bits of the secret; one per (type, constructor) for the drop"
FLOOR = 40
LIMIT = 32   # bits: the header bytes of binary material may share a few bits with the secret


def ok(kind, ins):
    return False if kind == "weak" else True


def bits(v, out, d=0):
    """secret bits of the plain byte and text content of v"""
    if d > 12:
        return out
    t = type(v)
    if t is Seq:
        for e in v.e:
            bits(e, out, d + 1)
    elif t is Bits or t is Ch:
        for b in v.b:
            if type(b) is int and b > 1:
                n = bitname(b)
                base = n[0] if isinstance(n, tuple) else n
                k = base[0] if isinstance(base, tuple) and base else base
                if k == "secret" or k == "argon" or "random" in str(k) or (isinstance(base, str) and "rng" in base):
                    out.add(b)
    elif t is Agg or t is Clo:
        for x in v.f:
            bits(x, out, d + 1)
    elif t is OneOf:
        for x in v.vs:
            bits(x, out, d + 1)
    elif t is Alt:
        for x in getattr(v, "vs", ()):
            bits(x[1] if isinstance(x, tuple) and len(x) > 1 else x, out, d + 1)
    return out


def wiping(s):
    """types whose own drop wipes: wiped wrappers, key types of the suites, and the two types whose drop is decided separately"""
    return "Zeroizing<" in s or s.endswith(("signer::Signer", "salter::Salter")) or "SigningKey" in s or "SecretKey" in s or s.startswith("&")


def holds_signers(s):
    return "signer::Signer" in s or "salter::Salter" in s


def leaks(ctx, k, r, fi, what, start=0):
    W = ctx.W
    if not r.modelled():
        ctx.unknown(k, what + ": unmodelled " + str(sorted(map(str, r.I.unmodelled))[:3]))
        return
    bad = None
    for fn, t, v, pc in r.I.drops[start:]:
        if isinstance(t, tuple):
            got = bits(v[0], set())
            if len(got) < LIMIT or "[u8; " in t[2] and got <= bits(v[1], set()):   # (an array that is returned is the caller's)
                continue
            how = "leaves the stack array '%s'" % t[1]
        elif t is None:
            got = bits(v, set())
            how = "empties a buffer"
        else:
            s = W.T[t]["s"] if isinstance(t, int) else t
            if wiping(s) or holds_signers(s):
                continue
            got = bits(v, set())
            how = "releases a %s" % s.replace("alloc::vec::", "").replace("alloc::string::", "")
        if len(got) >= LIMIT:
            bad = bad or (fn, how, len(got))
    ctx.require(k, bad is None, W.loc(fi), bad and "%s: %s %s that holds %d bits of the secret, without wiping it" % (what, bad[0].split("::", 1)[-1], bad[1], bad[2]))


def run(ctx):
    r = ctx.W.run(oracle=ok)
    r.I.drops = []
    return r


def forms(code, raw):
    t = lib.text(code, (), raw.e, 0)
    return (("raw", dict(code=S(code), raw=raw)), ("qb64", dict(qb64=t)), ("qb64b", dict(qb64b=t)), ("qb2", dict(qb2=lib.binary(t))), ("gen", dict(code=S(code))))


def dropped(ctx, k, r, ty, v, raw, what):
    """the drop of the value wipes all of its secret"""
    W = ctx.W
    path = W.adt(ty)
    fs = [i for i, f in enumerate(W.F) if f["p"].startswith("<" + path + " as ") and f["p"].endswith("Drop>::drop")]
    want = bits(raw, set())
    if not want:
        return ctx.unknown(k, what + ": secret not understood")
    if not fs:
        tys = [W.T[f["t"]]["s"] for var in W.adts[path]["vs"] for f in var["f"]]
        n = sum(1 for i, s in enumerate(tys) if "Zeroizing<" in s)
        ctx.require(k, n > 0, path, "%s: neither the type nor a field of it is wiped when it is dropped" % what)
        return
    n = len(r.I.trace)
    x = r.ref(v)
    o = r.call(fs[0], x)
    if not r.modelled():
        return ctx.unknown(k, what + ": unmodelled " + str(sorted(map(str, r.I.unmodelled))[:3]))
    got = set()
    for name, ins in r.I.trace[n:]:
        if name == "zeroize":
            bits(ins[0], got)
    left = bits(r.deep(r.I.load(x, r.mem)), set())
    ctx.require(k, want <= got or not left and bool(got), W.loc(fs[0]), "%s: dropping it wipes %d of the %d bits of its secret" % (what, len(want & got), len(want)))


def construct(ctx, ty, code, n):
    W = ctx.W
    raw = symbytes("secret", n)
    new = W.method(ty, "new")
    m = ml.M(ctx, W.adt(ty))
    for form, kw in forms(code, raw):
        if form == "gen" and ty == "Salter":
            kw = {}
        r = run(ctx)
        k = "%s/%s/%s" % (ty, code, form)
        what = "%s::new of code %s from %s" % (ty, code, "nothing" if form == "gen" else form)
        v = ctx.must_ok(k, r, prims.new(r, ty, **kw), W.loc(new), what)
        if v is None:
            continue
        leaks(ctx, k + "/leak", r, new, what)
        s = r.ref(v)
        own = m.get(r, s, "raw")
        for enc in ("qb64", "qb64b", "qb2"):
            a = len(r.I.drops)
            o = m.call(r, enc, s)
            leaks(ctx, "%s/%s" % (k, enc), r, m.fi(enc), "%s of %s" % (enc, what), a)
        dropped(ctx, k + "/drop", r, ty, v, own, what)
        ctx.seen(r)


def sign(ctx, code):
    W = ctx.W
    r = run(ctx)
    v = ctx.must_ok("sign/" + code, r, sigs.signer(ctx, r, code, symbytes("secret", 32)), "-", "Signer of code " + code)
    if v is None:
        return
    s = r.ref(v)
    for name, args in (("sign_unindexed", ()), ("sign_indexed", (0, 1, opt(None))), ("sign_indexed", (1, 70, opt(None)))):
        fi = W.method("Signer", name)
        a = len(r.I.drops)
        r.call(fi, s, sigs.ser(r), *args)
        leaks(ctx, "sign/%s/%s/%d" % (code, name, len(args) and args[1]), r, fi, "Signer::%s of code %s" % (name, code), a)
    ctx.seen(r)


def derive(ctx, code, temp):
    W = ctx.W
    r = run(ctx)
    v = ctx.must_ok("derive/%s/%s" % (code, temp), r, prims.new(r, "Salter", code=S("0A"), raw=symbytes("secret", 16)), "-", "Salter")
    if v is None:
        return
    s = r.ref(v)
    for name, args in (("stretch", (opt(32), opt(r.s("path")), opt(None), opt(temp))),
                       ("signer", (opt(r.s(code)), opt(1), opt(r.s("path")), opt(None), opt(temp))),
                       ("signers", (opt(2), opt(0), opt(r.s("path")), opt(r.s(code)), opt(1), opt(None), opt(temp)))):
        fi = W.method("Salter", name)
        a = len(r.I.drops)
        o = r.call(fi, s, *args)
        k = "derive/%s/%s/%s" % (code, temp, name)
        v = ctx.must_ok(k, r, o, W.loc(fi), "Salter::" + name)
        leaks(ctx, k + "/leak", r, fi, "Salter::%s for code %s" % (name, code), a)
        if name == "signer" and v is not None:
            own = r.get(r.ref(v), "Signer", "raw")
            dropped(ctx, k + "/drop", r, "Signer", v, own, "a signer made by Salter::signer")
    ctx.seen(r)


def go(ctx, f, *a):
    globals()[f](ctx, *a)


def check(ctx):
    ctx.pmap(go, [("construct", "Signer", c, 32) for c in sigs.SUITE] + [("construct", "Salter", "0A", 16)]
             + [("sign", c) for c in sigs.SUITE] + [("derive", c, t) for c in sigs.SUITE for t in (0, 1)])
    ctx.info["released_bits_allowed"] = LIMIT - 1
