"""Verification never fails open: for every verifier code and all key, signature and message bytes, Verfer::verify answers true
only when the suite's own verification accepts exactly (this key, this message, this signature) - when key or signature
parsing or the verification itself fails the answer is false or an error - and answers true when it accepts."""
import itertools
import msgs
import prims
import sigs
import spec
from domain import Agg, Alt, Seq, S, sstr, symbytes, show
from absint import inexact
from check import differs, short
from world import sat, show_pc
from matterlib import opt
from models import uninterp
from pathlib_ import bools

RULE = "one obligation per (verifier code, outcome of key parsing, signature parsing and verification in the dependency)"
FLOOR = 30
SIG = symbytes("sig", 64)


def bval(o):
    """definite boolean answer of a Result<bool> outcome: True, False, 'err', or None"""
    k = o.kind()
    if k == "err":
        return "err"
    if k == "ok":
        v = o.run.deep(o.okv())
        if v in (0, 1):
            return bool(v)
    if k == "panic":
        return "panic"
    return None


def one(ctx, code, form):
    W = ctx.W
    cv = sigs.CURVE[code]
    fi = W.method("Verfer", "verify")
    where = W.loc(fi)
    key = symbytes("key", spec.raw_size(code))
    vs = prims.forms(code, key)[1]
    for vk, sg, ver in itertools.product((True, False), repeat=3):
        state = {"on": True}

        def oracle(k, ins):
            if k == "weak":
                return False
            if k == "vk":
                return vk if state["on"] else True
            if k == "sig":
                return sg
            if k.startswith("verify"):
                return ver
            return True
        k = "%s/%s/%s%s%s" % (code, form, "K" if vk else "k", "S" if sg else "s", "V" if ver else "v")
        desc = "key %s, signature %s, verification %s" % ("parses" if vk else "does not parse", "parses" if sg else "does not parse", "accepts" if ver else "rejects")
        what = "Verfer::verify with code %s when %s" % (code, desc)
        r = W.run(oracle=oracle)
        g = {form: vs[form]}
        if form == "raw":
            g["code"] = S(code)
        x = prims.new(r, "Verfer", **g).okv()
        ps, complete = r.paths(fi, r.ref(x), r.ref(SIG), sigs.ser(r))
        ctx.seen(r)
        if not complete:
            ctx.unknown(k + "/paths", what + ": not all paths enumerated")
        for n, p in enumerate(ps):
            judge(ctx, "%s/path-%d" % (k, n), p, vk, sg, ver, cv, key, what, where)


def judge(ctx, k, p, vk, sg, ver, cv, key, what, where):
    """one path of verify under fixed dependency outcomes"""
    r = p.run
    with p:
        b = bval(p.out)
        if not p.ok:
            ctx.unknown(k, "%s; unmodelled %s" % (what, sorted(map(str, r.I.unmodelled))[:3]))
            return
        if p.pc:
            what += " and " + short(show_pc(p.pc), 160)
        used = {n for n, i in p.trace}
        calls = [i for n, i in p.trace if n.startswith("verify")]
        # verification through another digest or message form is not the suite's verification
        accept = bool(("vk" not in used or vk) and ("sig" not in used or sg) and calls and ver)
        sure = p.feasible is True

        def bad(key, msg):
            if sure:
                ctx.fail(key, where, msg)
            else:
                ctx.unknown(key, msg)
        v = r.deep(p.out.v) if p.out.v is not None and not p.out.never else None
        may = b is True or b is None and maytrue(v, r.I.nz)
        if may:
            if not accept:
                bad(k, what + ": the answer can be true")
                return
            if b is None:
                bad(k, what + ": the answer depends on %s" % short(show(v)))
                return
            ctx.ok(k)
            good = False
            exact = True
            for i in calls:
                if len(i) < 5:
                    exact = False
                    continue
                c1, kb, m, c2, sb = i
                if (sigs.curve_of(c1), kb, m, sigs.curve_of(c2), sb) == (cv, key, sigs.SER, cv, SIG):
                    good = True
            if good:
                ctx.ok(k + "/triple")
            elif exact and all(differs_call(i, cv, key, r.I.nz) for i in calls):
                bad(k + "/triple", "%s: the verification that was asked for is %s" % (what, short(" ".join(show(z) if not isinstance(z, str) else z for z in calls[-1]))))
            else:
                ctx.unknown(k + "/triple", "arguments of the dependency call not decided")
        elif b is None:
            ctx.unknown(k, what + ": " + (short(show(v)) if v is not None else "?"))
        elif b == "panic":
            bad(k, what + ": panics")
        elif vk and sg and ver:
            bad(k, "%s: the answer is %s" % (what, b))
        else:
            ctx.ok(k)


def differs_call(i, cv, key, nz):
    c1, kb, m, c2, sb = i
    return sigs.curve_of(c1) != cv or sigs.curve_of(c2) != cv or differs(kb, key, nz) is True or differs(m, sigs.SER, nz) is True or differs(sb, SIG, nz) is True


def maytrue(v, nz):
    """the answer is Ok(x) with x a condition over the inputs that some input makes true"""
    if type(v) is Alt and 0 in v.a and v.c and sat(v.c.get(0), nz) is True:
        v = Agg(0, v.a[0])
    if type(v) is Agg and v.v == 0 and v.f:
        x = v.f[0]
        if type(x) is int:
            return x == 1
        return not inexact(x) and sat(((x, 1),), nz) is True
    return False


def exactly(i, cv, key, msg):
    """is this call of the dependency about exactly the triple in question? None when that is not decided. A P-256 signature and
    its low-s form are one signature; secp256k1 verification refuses the high-s form."""
    if len(i) < 5:
        return None
    c1, kb, m, c2, sb = i
    if sigs.curve_of(c1) != cv or sigs.curve_of(c2) != cv:
        return False
    if cv == "p256" and sb == uninterp("normal_s", 64, SIG):
        sb = SIG
    if (kb, m, sb) == (key, msg, SIG):
        return True
    normal = sb == uninterp("normal_s", 64, SIG)
    if normal or any(differs(a, b) is True for a, b in ((kb, key), (m, msg), (sb, SIG))):
        return False
    return None


def adversary(ctx, code, mname, msg):
    """two worlds: one where the dependency accepts only the exact triple, one where it accepts everything but"""
    W = ctx.W
    cv = sigs.CURVE[code]
    fi = W.method("Verfer", "verify")
    key = symbytes("key", spec.raw_size(code))
    for mode in ("only", "but"):
        for high in (False, True) if cv != "ed25519" else (False,):
            def oracle(k, ins):
                if k == "weak":
                    return False
                if k == "high_s":
                    return high
                if k.startswith("verify"):
                    e = exactly(ins, cv, key, msg)
                    return None if e is None else e == (mode == "only")
                return True
            r = W.run(oracle=oracle)
            x = prims.new(r, "Verfer", code=S(code), raw=key).okv()
            k = "%s/%s/%s%s" % (code, mname, mode, "/high" if high else "")
            what = "Verfer::verify with code %s of the message %s when the suite accepts %s this key, message and signature" % (code, mname, "only" if mode == "only" else "anything except")
            bools(ctx, k, r, fi, [r.ref(x), r.ref(SIG), r.ref(msg)], mode == "only", what, err_ok=mode == "but")


def messages(ctx, code):
    for n, m in msgs.some(ctx.thorough).items():
        adversary(ctx, code, n, m)


def sample(n, how):
    """degenerate keys and signatures: what a careless shortcut accepts"""
    h = n // 2
    return {"zero": (0,) * n, "ones": (255,) * n, "one": (1,) + (0,) * (n - 1), "last": (0,) * (n - 1) + (1,), "low-zero": (0,) * h + tuple(range(1, n - h + 1)), "high-zero": tuple(range(1, n - h + 1)) + (0,) * h,
            "plain": tuple((7 * i + 3) % 256 for i in range(n)), "text": (65,) * n, "half": tuple(range(1, h + 1)) * 2 + (0,) * (n - 2 * h)}[how]


SAMPLES = ("zero", "ones", "one", "last", "low-zero", "high-zero", "plain", "text", "half")
SMALL = {"empty": Seq(()), "nul": Seq((0,)), "byte": symbytes("m", 1), "bytes": symbytes("m", 32), "opaque": None}


def degenerate(ctx, code, kn, sn, mn):
    """a suite that rejects has the last word, whatever the key, signature and message"""
    W = ctx.W
    fi = W.method("Verfer", "verify")
    n = spec.raw_size(code)
    for weak in (False, True) if sigs.CURVE[code] == "ed25519" else (False,):
        r = W.run(oracle=lambda k, ins: weak if k == "weak" else not k.startswith("verify"))
        key = symbytes("key", n) if kn == "unknown" else Seq(sample(n, kn))
        o = prims.new(r, "Verfer", code=S(code), raw=key)
        if o.kind() != "ok":
            ctx.unknown("%s/degenerate/%s" % (code, kn), "no verifier")
            return
        msg = sigs.ser(r) if SMALL[mn] is None else r.ref(SMALL[mn])
        bools(ctx, "%s/degenerate/%s/%s/%s/%s" % (code, kn, sn, mn, weak), r, fi, [r.ref(o.okv()), r.ref(Seq(sample(64, sn))), msg], False,
              "Verfer::verify with code %s of the key %s, the signature %s and the message %s when the suite rejects" % (code, kn, sn, mn), err_ok=True)


def wrongsize(ctx, code, n):
    """signatures of another length are never accepted (ed25519: cesride converts; others: the dependency's parser decides)"""
    W = ctx.W
    fi = W.method("Verfer", "verify")
    key = symbytes("key", spec.raw_size(code))
    r = W.run(oracle=prims.crypto_ok)
    x = prims.new(r, "Verfer", code=S(code), raw=key).okv()
    o = r.call(fi, r.ref(x), r.ref(symbytes("sig", n)), sigs.ser(r))
    b = bval(o)
    k = "%s/siglen-%d" % (code, n)
    what = "Verfer::verify with code %s and a %d byte signature" % (code, n)
    ctx.seen(r)
    if b is None or not r.modelled():
        ctx.unknown(k, what)
        return
    parsed = any(nm == "sig" and i[1] == symbytes("sig", n) for nm, i in r.I.trace)
    ctx.require(k, b is not True and b != "panic" or (parsed and b is True), W.loc(fi), "%s: %s" % (what, b))


def shortkey(ctx, code, n):
    """a key that is not of the code's size never makes a verifier"""
    W = ctx.W
    r = W.run(oracle=prims.crypto_ok)
    ctx.must_err("%s/keylen-%d" % (code, n), r, prims.new(r, "Verfer", code=S(code), raw=symbytes("key", n)),
                 W.loc(W.method("Verfer", "new")), "Verfer::new with code %s and %d raw bytes" % (code, n))
    ctx.seen(r)


def check(ctx):
    ctx.pmap(one, [(c, f) for c in prims.VERF for f in ("raw", "qb64b", "qb64", "qb2")])
    ctx.pmap(messages, [(c,) for c in prims.VERF])
    ctx.pmap(degenerate, [(c, k, s, m) for c in prims.VERF for k in ("unknown",) + SAMPLES for s in SAMPLES for m in SMALL if k in ("unknown", "plain") or k == s or s in ("zero", "plain")])
    ctx.pmap(wrongsize, [(c, n) for c in prims.VERF for n in (0, 1, 32, 63, 65, 128)])
    ctx.pmap(shortkey, [(c, n) for c in prims.VERF for n in ((0, 1, 31) if spec.raw_size(c) == 32 else (0, 1, 32))])
