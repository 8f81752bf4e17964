"""Digest verification is exact: for every digest code, Diger::verify answers true exactly when the held digest equals the named algorithm's
digest of exactly those bytes; compare answers true for an identical digest, false for a different digest of the same code, and for a
digest of another code true exactly when both digests verify against the bytes."""
import digs
import matterlib as ml
import models
import msgs
import prims
from domain import Agg, S, Seq, symbit, symbytes
from pathlib_ import bools

RULE = "one obligation per (digest code, position of a differing byte, entry point); hash outputs are arbitrary constants per (algorithm, length, bytes)"
FLOOR = 100
TAGSET = set(digs.TAGS.values())


def const(tag, n, salt=0):
    h = sum(ord(c) for c in tag) * 7 + n + salt * 31
    return Seq(tuple((h + i * 13) & 255 for i in range(n)))


class Fixed:
    """digests of SER are fixed distinct constants, digests of anything else different constants"""

    def __enter__(self):
        models.INTERP = lambda tag, n, ins: const(tag, n, 0 if ins == (digs.SER,) else 1) if isinstance(tag, str) and tag in set(digs.TAGS.values()) else None
        return self

    def __exit__(self, *a):
        models.INTERP = None


def right(code, salt=0):
    return const(digs.TAGS[code], digs.SIZE[code], salt)


def wrong(code, i, tag="w"):
    """every digest that differs from the right one in byte i (the other bytes arbitrary): the right byte is zero there"""
    n = digs.SIZE[code]
    return symbytes(tag, n), frozenset(symbit(tag, 8 * i + b) for b in range(8))


def diger(r, code, raw):
    return r.ref(prims.new(r, "Diger", code=S(code), raw=raw).okv())


def messages(ctx, code):
    """the digest of every probe message verifies; with everything but that digest's hash of the message answering differently it does not"""
    W = ctx.W
    fi = W.method("Diger", "verify")
    for n, m in msgs.some(ctx.thorough).items():
        for mode in ("only", "but"):
            models.INTERP = lambda tag, sz, ins: const(tag, sz, 0 if (ins == (m,)) == (mode == "only") else 1) if tag in TAGSET else None
            try:
                r = W.run()
                d = diger(r, code, right(code))
                bools(ctx, "%s/message-%s/%s" % (code, n, mode), r, fi, [d, r.ref(m)], mode == "only",
                      "Diger::verify of the message %s with code %s when the held digest is that of %s" % (n, code, "exactly this message" if mode == "only" else "every other message"))
            finally:
                models.INTERP = None


def verify(ctx, code):
    W = ctx.W
    fi = W.method("Diger", "verify")
    with Fixed():
        r = W.run()
        bools(ctx, code + "/verify/right", r, fi, [diger(r, code, right(code)), r.ref(digs.SER)], True, "Diger::verify with code %s and the right digest" % code)
        r = W.run()
        bools(ctx, code + "/verify/other-data", r, fi, [diger(r, code, right(code)), r.ref(S("something else"))], False,
              "Diger::verify with code %s and the digest of other bytes" % code)
        for i in range(digs.SIZE[code]):
            # exactly byte i differs, by one bit or arbitrarily with the rest arbitrary
            for bit in (1, 128):
                e = list(right(code).e)
                e[i] ^= bit
                r = W.run()
                bools(ctx, "%s/verify/byte-%d-%d" % (code, i, bit), r, fi, [diger(r, code, Seq(tuple(e))), r.ref(digs.SER)], False,
                      "Diger::verify with code %s and a digest wrong in byte %d" % (code, i))
        for name, x in digs.near(code, right(code), ctx.thorough):
            r = W.run()
            bools(ctx, "%s/verify/%s" % (code, name), r, fi, [diger(r, code, x), r.ref(digs.SER)], False, "Diger::verify with code %s and the digest with %s" % (code, name))
        # all digests that differ in their first byte class (bit 0 of byte i flipped, everything else arbitrary)
        for i in (0, digs.SIZE[code] // 2, digs.SIZE[code] - 1):
            e = list(symbytes("w", digs.SIZE[code]).e)
            e[i] = right(code).e[i] ^ 1
            r = W.run()
            bools(ctx, "%s/verify/any-%d" % (code, i), r, fi, [diger(r, code, Seq(tuple(e))), r.ref(digs.SER)], False,
                  "Diger::verify with code %s and any digest with byte %d wrong" % (code, i))


def compare(ctx, a, b, via):
    """compare a diger of code a with one of code b"""
    W = ctx.W
    fi = W.method("Diger", "compare")
    sel = lambda ok, code: right(code) if ok else Seq(right(code).e[:-1] + (right(code).e[-1] ^ 1,))
    with Fixed():
        for ra in (True, False):
            for rb in (True, False):
                r = W.run()
                x = diger(r, a, sel(ra, a))
                rawb = sel(rb, b)
                if via == "diger":
                    args = [x, r.ref(digs.SER), ml.opt(None), ml.opt(diger(r, b, rawb))]
                else:
                    args = [x, r.ref(digs.SER), ml.opt(r.ref(prims.forms(b, rawb)[0])), ml.opt(None)]
                if a == b:
                    want = ra == rb
                else:
                    want = ra and rb
                bools(ctx, "%s/%s/compare-%s/%s-%s" % (a, b, via, "right" if ra else "wrong", "right" if rb else "wrong"), r, fi, args, want,
                      "Diger::compare (%s) of a %s digest of code %s with a %s digest of code %s" % (via, "right" if ra else "wrong", a, "right" if rb else "wrong", b))
        if b in (a, "E"):
            # the same code: only the very same digest; another code: only when both are right
            for name, x in digs.near(b, right(b), ctx.thorough):
                r = W.run()
                d = diger(r, a, right(a))
                args = [ml.opt(None), ml.opt(diger(r, b, x))] if via == "diger" else [ml.opt(r.ref(prims.forms(b, x)[0])), ml.opt(None)]
                bools(ctx, "%s/%s/compare-%s/%s" % (a, b, via, name), r, fi, [d, r.ref(digs.SER)] + args, False,
                      "Diger::compare (%s) of a right digest of code %s with one of code %s with %s" % (via, a, b, name))
        if a == b and via == "dig":
            # a digest cut short, lengthened or with its text altered in the frame is never equal
            full = prims.forms(b, right(b))[0]
            for n in range(len(full.e)):
                r = W.run()
                bools(ctx, "%s/compare-cut/%d" % (a, n), r, fi, [diger(r, a, right(a)), r.ref(digs.SER), ml.opt(r.ref(Seq(full.e[:n]))), ml.opt(None)], False,
                      "Diger::compare of a right digest of code %s with the first %d bytes of its own text" % (a, n), err_ok=True)
            for name, x in (("twice itself", full.e * 2), ("its tail missing and filled", full.e[:-4] + (65,) * 4), ("another code's letter", (full.e[0] ^ 1,) + full.e[1:]), ("a leading blank", (32,) + full.e),
                            ("an upper-case text", tuple(c - 32 if 97 <= c <= 122 else c for c in full.e)), ("a lower-case text", tuple(c + 32 if 65 <= c <= 90 else c for c in full.e))):
                r = W.run()
                bools(ctx, "%s/compare-altered/%s" % (a, name), r, fi, [diger(r, a, right(a)), r.ref(digs.SER), ml.opt(r.ref(Seq(x))), ml.opt(None)], False,
                      "Diger::compare of a right digest of code %s with %s" % (a, name), err_ok=True)
        if a == b and via == "diger":
            r = W.run()
            bools(ctx, "%s/compare/nothing" % a, r, fi, [diger(r, a, right(a)), r.ref(digs.SER), ml.opt(None), ml.opt(None)], "err", "Diger::compare with neither digest")


def check(ctx):
    ctx.pmap(messages, [(c,) for c in digs.TAGS])
    ctx.pmap(verify, [(c,) for c in digs.TAGS])
    ctx.pmap(compare, [(a, b, v) for a in digs.TAGS for b in digs.TAGS for v in ("diger", "dig")])
