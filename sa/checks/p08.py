"""Strictness of the Indexer constructors, encoders and decoders over symbolic material: an index or other index that
its code cannot carry is refused by construction and by both encoders, current-list-only codes accept no other index,
codes without other-index characters accept only an equal one, and text / binary with non-zero pad bits, undefined
codes, foreign characters or missing material is refused with an error, never accepted and never a panic."""
import idxlib as ix
import lib
import matterlib as ml
import spec
from domain import B64, Agg, S, Seq, mkbits, mkch, symbit, symbytes
from checks.p06 import chars, padded, text_only

RULE = "one obligation per (type, code, malformation)"
FLOOR = 50


def toobig(name, i):
    """32-bit value whose highest set bit is i"""
    return mkbits(tuple(symbit(name, j) for j in range(i)) + (1,) + (0,) * (31 - i))


def ctor(ctx, ty, code):
    W = ctx.W
    m = ix.X(ctx, ty)
    cname, hs, ss, os_, ls, fs = ix.row(code)
    ms = ss - os_
    crt = code in spec.CURRENT_ONLY
    raw = symbytes("raw", ix.raw_len(code))
    w = m.where("new_with_code_and_raw")
    nm = ml.last(ty)

    def refuse(tag, index, ondex, what, rawv=raw, codev=code):
        r = W.run()
        o = m.call(r, "new_with_code_and_raw", r.s(codev), r.ref(rawv), index, ml.opt(ondex))
        ctx.must_err("%s/%s/%s" % (nm, code, tag), r, o, w, "constructing %s %s with %s" % (nm, code, what))
        ctx.seen(r)
    for i in range(6 * ms, 32):
        refuse("index-%d" % i, toobig("big", i), None, "an index of %d bits" % (i + 1))
    if os_ and not crt:
        for i in range(6 * os_, 32):
            refuse("ondex-%d" % i, 0, toobig("big", i), "an other index of %d bits" % (i + 1))
    if crt:
        for v, t in ((0, "0"), (1, "1"), (5, "5")):
            refuse("crt-ondex-" + t, 0 if v != 5 else 5, v, "other index %s on a current-list-only code" % t)
    elif not os_:
        # different other index: each way of differing in one bit
        for i in range(6 * ms):
            v = lib.symint("idx", 6 * ms)
            from domain import tobits
            b = list(tobits(v, 32))
            x = mkbits(tuple(0 if j == i else q for j, q in enumerate(b)))
            y = mkbits(tuple(1 if j == i else q for j, q in enumerate(b)))
            refuse("mismatch-%d" % i, x, y, "an other index different from the index")
    # whatever else is given
    more = Seq(raw.e + symbytes("more", 5).e)
    for i, o in ((1, 0), (0, 1), (1, 2), (63, 0), (5, 4)):
        if i < 1 << 6 * ms and (crt or not os_):
            refuse("both-%d-%d" % (i, o), i, o, "index %d and other index %d" % (i, o))
            refuse("both-%d-%d-surplus" % (i, o), i, o, "index %d and other index %d and surplus raw" % (i, o), rawv=more)
    for i in (6 * ms, 6 * ms + 1, 31):
        if i < 32:
            refuse("index-%d-surplus" % i, toobig("big", i), None, "an index of %d bits and surplus raw" % (i + 1), rawv=more)
            refuse("index-%d-same" % i, toobig("big", i), toobig("big", i), "an index and other index of %d bits" % (i + 1))
    refuse("short", 0, None, "raw material one byte short", rawv=Seq(raw.e[:-1]))
    refuse("empty", 0, None, "no raw material", rawv=Seq(()))
    # surplus raw material is cut to the size of the code
    r = W.run()
    o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(symbytes("raw", len(raw.e) + 5)), 0, ml.opt(None))
    v = ctx.must_ok("%s/%s/surplus" % (nm, code), r, o, w, "constructing %s %s with surplus raw material" % (nm, code))
    if v is not None:
        m.observe("%s/%s/surplus" % (nm, code), r, r.ref(v), {"raw": raw}, w, "%s %s from surplus raw" % (nm, code))
    # encoders re-check values set after construction
    for what, setter, width in (("index", "set_index", ms), ("ondex", "set_ondex", os_)):
        if not width:
            continue
        for i in sorted({6 * width, 6 * width + 1, 6 * width + 5, 6 * width + 6, 20, 31}):
            if not 6 * width <= i < 32:
                continue
            for enc in ("qb64", "qb64b", "qb2"):
                r = W.run()
                o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(raw), 0, ml.opt(None))
                if o.kind() != "ok":
                    continue
                obj = r.ref(o.okv())
                m.call(r, setter, obj, toobig("big", i))
                e = m.call(r, enc, obj)
                ctx.must_err("%s/%s/encode-%s-%d/%s" % (nm, code, what, i, enc), r, e, m.where(enc),
                             "%s of %s %s holding an %s of %d bits" % (enc, nm, code, what, i + 1))
                ctx.seen(r)


def dec(ctx, ty, code):
    W = ctx.W
    m = ix.X(ctx, ty)
    cname, hs, ss, os_, ls, fs = ix.row(code)
    ms = ss - os_
    cs = hs + ss
    crt = code in spec.CURRENT_ONLY
    nm = ml.last(ty)
    idx = lib.symchars("ix", ms)
    odx = lib.symchars("ox", os_) if not crt else lib.b64int(0, os_)
    head = tuple(code.encode()) + tuple(idx) + tuple(odx)
    k = fs - cs
    npad = 2 * (cs % 4) if cs % 4 else 8 * ls
    good = Seq(head + chars("pay", k, zero=set(range(npad))))
    # well formed material with arbitrary soft characters decodes
    for form, arg in (("qb64", good), ("qb64b", good), ("qb2", lib.binary(good))):
        r = W.run()
        o = m.call(r, "new_with_" + form, r.ref(arg))
        w = m.where("new_with_" + form)
        v = ctx.must_ok("%s/%s/any/%s" % (nm, code, form), r, o, w, "decoding any well-formed %s of %s" % (form, code))
        if v is not None:
            b = []
            for c in reversed(idx):
                b += list(c.b)
            m.observe("%s/%s/any/%s" % (nm, code, form), r, r.ref(v), {"code": S(code), "index": mkbits(tuple(b) + (0,) * (32 - len(b)))}, w,
                      "%s decoded from any well-formed %s" % (nm, form))
        ctx.seen(r)

    def refuse(tag, t, what, nz=(), forms=("qb64", "qb2")):
        for form in forms:
            r = W.run(nz=nz)
            o = m.call(r, "new_with_" + form, r.ref(lib.binary(t) if form == "qb2" else t))
            ctx.must_err("%s/%s/%s/%s" % (nm, code, tag, form), r, o, m.where("new_with_" + form), "decoding %s of %s with %s" % (form, code, what))
            ctx.seen(r)
    if npad:
        refuse("pad", Seq(head + chars("pay", k)), "non-zero pad bits", nz=[frozenset(symbit("pay", i) for i in range(npad))])
        for i in range(npad):
            cc = list(chars("pay", k, zero=set(range(npad)) - {i}))
            ci = i // 6
            cc[ci] = mkch(tuple(1 if 6 * ci + (5 - j) == i else 0 if 6 * ci + (5 - j) < npad else symbit("pay", 6 * ci + (5 - j)) for j in range(6)))
            refuse("padbit-%d" % i, Seq(head + tuple(cc)), "pad bit %d set" % i)
    if crt and os_:
        refuse("crt-ondex", Seq(tuple(code.encode()) + tuple(idx) + lib.symchars("ox", os_) + good.e[cs:]),
               "a non-zero other index on a current-list-only code", nz=[frozenset(symbit("ox", i) for i in range(6 * os_))])
        for i in range(6 * os_):
            ox = list(lib.b64int(0, os_))
            ox[i // 6] = mkch(tuple(1 if j == i % 6 else 0 for j in range(6)))
            refuse("crt-ondexbit-%d" % i, Seq(tuple(code.encode()) + tuple(idx) + tuple(ox) + good.e[cs:]), "an other index on a current-list-only code")
    b = lib.binary(good)
    for form, arg in (("qb64", good), ("qb2", b)):
        for cut in range(len(arg.e)):
            r = W.run()
            o = m.call(r, "new_with_" + form, r.ref(Seq(arg.e[:cut])))
            ctx.must_err("%s/%s/cut-%d/%s" % (nm, code, cut, form), r, o, m.where("new_with_" + form),
                         "decoding %s of %s cut to %d of %d" % (form, code, cut, len(arg.e)))
            ctx.seen(r)
        r = W.run()
        extra = chars("more", 5) if form == "qb64" else symbytes("more", 4).e
        o = m.call(r, "new_with_" + form, r.ref(Seq(arg.e + tuple(extra))))
        v = ctx.must_ok("%s/%s/trail/%s" % (nm, code, form), r, o, m.where("new_with_" + form), "decoding %s of %s followed by more material" % (form, code))
        if v is not None:
            # (encoding arbitrary soft characters needs a class split; the bare decode is the reference)
            r2 = W.run()
            o2 = m.call(r2, "new_with_" + form, r2.ref(arg))
            if o2.kind() == "ok":
                ctx.eq("%s/%s/trail-eq/%s" % (nm, code, form), r, r.deep(o.v), r2.deep(o2.v), m.where("new_with_" + form),
                       "%s followed by more material" % code)
        ctx.seen(r)
    for p in range(hs, fs):
        for bad in (b"=+/ ." if p in (hs, cs, fs - 1) else b"*"):
            e = list(good.e)
            e[p] = bad
            r = W.run()
            o = m.call(r, "new_with_qb64", r.ref(Seq(tuple(e))))
            ctx.must_err("%s/%s/alphabet-%d-%02x" % (nm, code, p, bad), r, o, m.where("new_with_qb64"), "decoding text of %s with %r at %d" % (code, chr(bad), p))
            ctx.seen(r)


def foreign(ctx, ty, code):
    """padding characters in place of material, characters of more than one byte"""
    m = ix.X(ctx, ty)
    cname, hs, ss, os_, ls, fs = ix.row(code)
    cs = hs + ss
    nm = ml.last(ty)
    npad = 2 * (cs % 4) if cs % 4 else 8 * ls
    t = tuple(code.encode()) + tuple(lib.b64int(1, ss - os_)) + tuple(lib.b64int(0, os_)) + chars("pay", fs - cs, zero=set(range(npad)))
    key = "%s/%s" % (nm, code)
    for j in (1, 2):
        text_only(ctx, m, "%s/padchars-%d" % (key, j), padded(t, j), "%s text of code %s ending in %d padding characters" % (nm, code, j))
    for u in ("\u00e9", "\u20ac"):
        b = tuple(u.encode())
        for p in range(fs) if ctx.thorough else sorted({0, 1, hs - 1, hs, cs - os_ - 1, cs - os_, cs - 1, cs, fs - 3, fs - 2, fs - 1}):
            if not 0 <= p < fs:
                continue
            text_only(ctx, m, "%s/multibyte-%d-%d" % (key, len(b), p), t[:p] + b + t[p + len(b):] + tuple(b"AAAA"), "%s text of code %s with %r at %d" % (nm, code, u, p))
            text_only(ctx, m, "%s/multibyte-%d-%d-cut" % (key, len(b), p), t[:p] + b, "%s text of code %s cut after %r at %d" % (nm, code, u, p))


def unknown(ctx, ty, cands):
    W = ctx.W
    m = ix.X(ctx, ty)
    for c in cands:
        r = W.run()
        o = m.call(r, "new_with_code_and_raw", r.s(c), r.ref(symbytes("raw", 128)), 0, ml.opt(None))
        ctx.must_err("unknown/%s/raw" % c, r, o, m.where("new_with_code_and_raw"), "constructing with the undefined indexed code %r" % c)
        ctx.seen(r)
        if not c or c in "01234":
            continue
        t = Seq(tuple(c.encode()) + tuple(b"AAAAAAAA") + chars("pay", 200 - 8 - len(c)))
        for form, arg in (("qb64", t), ("qb2", lib.binary(t))):
            r = W.run()
            o = m.call(r, "new_with_" + form, r.ref(arg))
            ctx.must_err("unknown/%s/%s" % (c, form), r, o, m.where("new_with_" + form), "decoding %s with the undefined indexed code %r" % (form, c))
            ctx.seen(r)


def check(ctx):
    tys = ml.implementors(ctx.W, "Indexer")
    ctx.require("types", bool(tys), "-", "no Indexer implementor found")
    codes = list(spec.INDEXER) + ix.tests(ctx.W)
    ctx.pmap(ctor, [(t, c) for t in tys for c in codes])
    ctx.pmap(foreign, [(t, c) for t in tys for c in codes])
    ctx.pmap(dec, [(t, c) for t in tys for c in codes])
    tbd = ("0z", "1z", "4z")   # test codes of the table, not part of the guarantee
    cands = [""] + [c for c in B64 if c not in spec.INDEXER]
    cands += [a + b for a in "01234" for b in B64 if a + b not in spec.INDEXER and a + b not in tbd]
    ctx.pmap(unknown, [(tys[0], cands[i::16]) for i in range(16)])
    ctx.info["undefined_codes_tried"] = len(cands)
