"""A digest is computed over exactly the given bytes with exactly the algorithm its code names: for every digest code and every
input, Diger::new_with_ser (and new with ser) holds the digest by the named algorithm and output length, of exactly those bytes, under that code; no
code means Blake3-256; any other code is refused."""
import digs
import msgs
import matterlib as ml
import prims
import spec
from domain import S
from pathlib_ import oks, same

RULE = "one obligation per (digest code, constructor, observed accessor); hash functions are uninterpreted functions of (algorithm, output length, bytes)"
FLOOR = 40


def one(ctx, code, via):
    for n, m in msgs.some(ctx.thorough).items() if via == "new_with_ser" else msgs.few().items():
        case(ctx, code, via, n, m)


def case(ctx, code, via, inp, data):
    W = ctx.W
    r = W.run()
    fi = W.method("Diger", "new_with_ser" if via == "new_with_ser" else "new")
    c = code or "E"
    if via == "new_with_ser":
        args = [r.ref(data), ml.opt(r.s(code) if code else None)]
    else:
        args = prims.args(r, prims.PRIM["Diger"][0], dict(ser=data, **({"code": S(code)} if code else {})))
    k = "%s/%s/%s" % (code or "default", via, inp)
    what = "Diger::%s over the message %s with code %s" % (via, inp, code or "unspecified")

    def held(p, k, w, bad, x):
        d = r.ref(x)
        same(ctx, p, k + "/code", w, bad, r.get(d, "Diger", "code"), S(c), "code()")
        same(ctx, p, k + "/raw", w, bad, r.get(d, "Diger", "raw"), digs.digest(c, data), "raw()")
        q = r.call(W.method("Diger", "qb64"), d)
        if q.kind() == "ok":
            same(ctx, p, k + "/qb64", w, bad, r.deep(q.okv()), prims.forms(c, digs.digest(c, data))[0], "qb64()")
        elif p.run.modelled():
            bad(k + "/qb64", w + ": qb64() fails")
        else:
            ctx.unknown(k + "/qb64", w)
    oks(ctx, k, r, fi, args, what, held)


def bad(ctx, code):
    W = ctx.W
    fi = W.method("Diger", "new_with_ser")
    r = W.run()
    o = r.call(fi, r.ref(digs.SER), ml.opt(r.s(code)))
    ctx.must_err("refused/%s" % code, r, o, W.loc(fi), "Diger::new_with_ser with the code %r" % code)
    ctx.seen(r)


def check(ctx):
    codes = list(digs.TAGS) + [None]
    ctx.pmap(one, [(c, v) for c in codes for v in ("new_with_ser", "new")])
    ctx.pmap(bad, [(c,) for c in spec.MATTER if c not in digs.TAGS] + [(c,) for c in ("", "e", "0", "1", "Z", "0Z", "EE")])
