"""Strictness of the Matter decoders, decided by abstract interpretation with symbolic sextets / bytes: text or binary
whose pad bits or lead bytes are not all zero, whose code is not in the table, which is shorter than its code says,
or which holds a character outside the base64url alphabet is refused with an error (never accepted, never a panic);
material after the primitive is ignored."""
import lib
import matterlib as ml
import spec
from domain import B64, Agg, Ch, S, Seq, Sym, symbit, symbytes, mkbits, mkch

RULE = "one obligation per (type, code, malformation)"
FLOOR = 50
TRIED = 0


def payload(code, n):
    """(code+soft chars, symbolic payload chars, pad groups) for raw length n"""
    hs, ss, ls, fs = spec.MATTER[code][1:]
    soft = lib.b64int((n + ls) // 3, ss) if fs is None else ()
    total = fs if fs is not None else hs + ss + 4 * ((n + ls) // 3)
    k = total - hs - ss
    cs = hs + ss
    # bits of the payload, most significant first: 6k; the first 2*(cs%4) (or 8*ls) are pad
    npad = 2 * (cs % 4) if cs % 4 else 8 * ls
    return tuple(code.encode()) + soft, k, npad


def chars(name, k, zero=()):
    """k symbolic characters; bit positions (msb-first) in zero are 0"""
    out = []
    for i in range(k):
        b = []
        for j in range(6):
            pos = 6 * i + (5 - j)
            b.append(0 if pos in zero else symbit(name, pos))
        out.append(mkch(tuple(b)))
    return tuple(out)


def strict(ctx, ty, code, n):
    W = ctx.W
    m = ml.M(ctx, ty)
    head, k, npad = payload(code, n)
    key = "%s/%s/%d" % (ml.last(ty), code, n)
    if npad and k:
        nb = spec.MATTER[code][3]
        grp = []
        if nb:   # lead bytes: the first non-zero byte is byte j
            for j in range(nb):
                grp.append(("byte%d" % j, set(range(8 * j)), range(8 * j, 8 * j + 8)))
        else:
            grp.append(("any", set(), range(npad)))
        for tag, zero, nzb in grp:
            nz = [frozenset(symbit("pay", i) for i in nzb)]
            t = Seq(head + chars("pay", k, zero=zero))
            for form, arg in (("qb64", t), ("qb2", lib.binary(t))):
                r = W.run(nz=nz)
                o = m.call(r, "new_with_" + form, r.ref(arg))
                ctx.must_err("%s/pad-%s/%s" % (key, tag, form), r, o, m.where("new_with_" + form),
                             "decoding %s %s of code %s with %s" % (ml.last(ty), form, code, "non-zero lead bytes" if nb else "non-zero pad bits"))
                ctx.seen(r)
        # one set bit at a time: the refusal may not depend on a combination
        for i in range(npad) if ctx.thorough or ty.endswith("Verfer") else (0, npad - 1):
            cc = list(chars("pay", k, zero=set(range(npad)) - {i}))
            ci = i // 6
            bb = []
            for j in range(6):
                pos = 6 * ci + (5 - j)
                bb.append(1 if pos == i else 0 if pos < npad else symbit("pay", pos))
            cc[ci] = mkch(tuple(bb))
            t = Seq(head + tuple(cc))
            for form, arg in (("qb64", t), ("qb2", lib.binary(t))):
                r = W.run()
                o = m.call(r, "new_with_" + form, r.ref(arg))
                ctx.must_err("%s/padbit-%d/%s" % (key, i, form), r, o, m.where("new_with_" + form),
                             "decoding %s %s of code %s with pad bit %d set" % (ml.last(ty), form, code, i))
                ctx.seen(r)
    # truncation
    zero = set(range(npad))
    t = Seq(head + chars("pay", k, zero=zero))
    b = lib.binary(t)
    full = ctx.thorough or ty.endswith("Verfer")
    for form, arg in (("qb64", t), ("qb2", b)):
        L = len(arg.e)
        for cut in range(L) if full else sorted({0, 1, 2, 3, 4, L // 2, L - 2, L - 1}):
            if not 0 <= cut < L:
                continue
            r = W.run()
            o = m.call(r, "new_with_" + form, r.ref(Seq(arg.e[:cut])))
            ctx.must_err("%s/cut-%d/%s" % (key, cut, form), r, o, m.where("new_with_" + form),
                         "decoding %s %s of code %s cut to %d of %d" % (ml.last(ty), form, code, cut, L))
            ctx.seen(r)
    # trailing material
    for form, arg, extra in (("qb64", t, chars("more", 5)), ("qb2", b, symbytes("more", 4).e)):
        r = W.run()
        o = m.call(r, "new_with_" + form, r.ref(Seq(arg.e + tuple(extra))))
        w = m.where("new_with_" + form)
        v = ctx.must_ok("%s/trail/%s" % (key, form), r, o, w, "decoding %s %s of code %s followed by more material" % (ml.last(ty), form, code))
        if v is not None:
            m.observe("%s/trail/%s" % (key, form), r, r.ref(v), {"qb64": t, "qb2": b, "code": S(code)}, w,
                      "%s decoded from a longer %s" % (ml.last(ty), form))
        ctx.seen(r)
    # whatever follows the primitive in a stream is ignored, also characters that are not base64
    for tag, extra in (("pad", b"="), ("brace", b'{"v":1}'), ("newline", b"\n"), ("dash", b"-AAB"), ("nul", b"\0"), ("same", bytes(x if type(x) is int else 65 for x in t.e)), ("accent", "\u00e9".encode())):
        for form in ("qb64", "qb64b"):
            r = W.run()
            o = m.call(r, "new_with_" + form, r.ref(Seq(t.e + tuple(extra))))
            w = m.where("new_with_" + form)
            v = ctx.must_ok("%s/trail-%s/%s" % (key, tag, form), r, o, w, "decoding %s %s of code %s followed by %r" % (ml.last(ty), form, code, extra[:8]))
            if v is not None:
                m.observe("%s/trail-%s/%s" % (key, tag, form), r, r.ref(v), {"qb64": t, "code": S(code)}, w, "%s decoded from a longer %s" % (ml.last(ty), form))
            ctx.seen(r)
    # and nothing may come before it
    for tag, extra in (("space", b" "), ("newline", b"\n"), ("tab", b"\t"), ("crlf", b"\r\n"), ("nul", b"\0"), ("pad", b"="), ("quote", b'"'), ("bom", b"\xef\xbb\xbf")):
        text_only(ctx, m, "%s/lead-%s" % (key, tag), tuple(extra) + t.e, "%s text of code %s after %r" % (ml.last(ty), code, extra))
    # characters outside the alphabet
    pos = range(k) if full else sorted({0, k // 2, k - 1})
    for p in pos:
        if not 0 <= p < k:
            continue
        for bad in (b"=", b"+", b"/", b" ", b"\n", b".") if p in (0, 1, k - 1) else (b"*",):
            cc = list(t.e)
            cc[len(head) + p] = bad[0]
            r = W.run()
            o = m.call(r, "new_with_qb64", r.ref(Seq(tuple(cc))))
            ctx.must_err("%s/alphabet-%d-%02x" % (key, p, bad[0]), r, o, m.where("new_with_qb64"),
                         "decoding %s text of code %s with %r at payload position %d" % (ml.last(ty), code, bad.decode(), p))
            ctx.seen(r)


def text_only(ctx, m, key, t, what):
    """the text is refused as a string and as bytes"""
    for form in ("qb64", "qb64b"):
        r = ctx.W.run()
        o = m.call(r, "new_with_" + form, r.ref(Seq(tuple(t))))
        ctx.must_err("%s/%s" % (key, form), r, o, m.where("new_with_" + form), "decoding %s" % what)
        ctx.seen(r)


def padded(t, j):
    """t ending in j '=' with the bits that base64 then leaves over zero"""
    e = list(t)
    c = e[-1 - j]
    if type(c) is Ch:
        n = 2 * j
        e[-1 - j] = mkch(tuple(0 if i < n else b for i, b in enumerate(c.b)))
    e[-j:] = [61] * j
    return e


def foreign(ctx, ty, code, n):
    """padding characters in place of material, characters of more than one byte anywhere, no room for lead bytes"""
    m = ml.M(ctx, ty)
    head, k, npad = payload(code, n)
    nm = ml.last(ty)
    key = "%s/%s/%d" % (nm, code, n)
    t = head + chars("pay", k, zero=set(range(npad)))
    hs, ss, ls, fs = spec.MATTER[code][1:]
    if k > 2:
        for j in (1, 2):
            text_only(ctx, m, "%s/padchars-%d" % (key, j), padded(t, j), "%s text of code %s ending in %d padding characters" % (nm, code, j))
    # a two byte and a three byte character; the second crosses the end of what the code describes
    L = len(t)
    for u in ("\u00e9", "\u20ac"):
        b = tuple(u.encode())
        at = range(L) if ctx.thorough else sorted({0, 1, hs - 1, hs, hs + ss - 1, hs + ss, L - 3, L - 2, L - 1})
        for p in at:
            if not 0 <= p < L:
                continue
            x = t[:p] + b + t[p + len(b):]
            text_only(ctx, m, "%s/multibyte-%d-%d" % (key, len(b), p), x + tuple(b"AAAA"), "%s text of code %s with %r at %d" % (nm, code, u, p))
            text_only(ctx, m, "%s/multibyte-%d-%d-cut" % (key, len(b), p), t[:p] + b, "%s text of code %s cut after %r at %d" % (nm, code, u, p))
    if fs is None and ls:
        z = tuple(code.encode()) + lib.b64int(0, ss)
        for tag, extra in (("", ()), ("-trail", chars("more", 8))):
            for form, arg in (("qb64", Seq(z + extra)), ("qb2", lib.binary(Seq(z + extra)))):
                r = ctx.W.run()
                o = m.call(r, "new_with_" + form, r.ref(arg))
                ctx.must_err("%s/no-lead%s/%s" % (key, tag, form), r, o, m.where("new_with_" + form),
                             "decoding %s %s of code %s and size 0, which has no room for the %d lead bytes" % (nm, form, code, ls))
                ctx.seen(r)


def oversize(ctx, ty, code):
    """a size of every magnitude over less material than it says is refused"""
    m = ml.M(ctx, ty)
    hs, ss, ls, fs = spec.MATTER[code][1:]
    nm = ml.last(ty)
    def given(key, sf, n, size):
        t = Seq(tuple(code.encode()) + sf + (65,) * (4 * n))
        for form, arg in (("qb64", t), ("qb2", lib.binary(t))):
            r = ctx.W.run()
            o = m.call(r, "new_with_" + form, r.ref(arg))
            ctx.must_err("%s/%s/oversize-%s-%d/%s" % (nm, code, key, n, form), r, o, m.where("new_with_" + form),
                         "decoding %s %s of code %s with a size of %s over %d quadlets of material" % (nm, form, code, size, n))
            ctx.seen(r)
    for k in range(6 * ss):
        for size in sorted({(1 << k) + d for d in range(4)} | {(1 << k + 1) - 1, (1 << k) * 3 // 2}):
            if size < 1 << 6 * ss:
                for n in sorted({0, 1, 2, 3, min(size - 1, 15)}):
                    if n < size:
                        given("is-%d" % size, lib.b64int(size, ss), n, size)


def unknown(ctx, ty, cands):
    """codes that are not in the table"""
    W = ctx.W
    m = ml.M(ctx, ty)
    for c in cands:
        r = W.run()
        raw = symbytes("raw", 64)
        o = m.call(r, "new_with_code_and_raw", r.s(c), r.ref(raw))
        ctx.must_err("%s/unknown/%s/raw" % (ml.last(ty), c), r, o, m.where("new_with_code_and_raw"),
                     "constructing %s with the undefined code %r" % (ml.last(ty), c))
        ctx.seen(r)
        if not c:
            continue
        n = 4 * ((len(c) + 3) // 4) + 128 - len(c)
        t = Seq(tuple(c.encode()) + chars("pay", n, zero=set(range(24))))
        for form, arg in (("qb64", t), ("qb2", lib.binary(t))):
            r = W.run()
            o = m.call(r, "new_with_" + form, r.ref(arg))
            ctx.must_err("%s/unknown/%s/%s" % (ml.last(ty), c, form), r, o, m.where("new_with_" + form),
                         "decoding %s %s with the undefined code %r" % (ml.last(ty), form, c))
            ctx.seen(r)


def bad_codes(ctx):
    known = spec.MATTER
    out = [""]
    out += [c for c in B64 if c not in known and c not in "0123456789"]
    out += ["0" + c for c in B64 if "0" + c not in known]
    for c in "456":
        out += [c + d for d in B64 if c + d not in known and (ctx.thorough or d in "CDZaz09-_")]
    for a in "123789":
        base = [k for k in known if k[0] == a]
        seen = set()
        for k in base:
            for p in (1, 2, 3):
                for d in B64 if (ctx.thorough or p == 3) else "BCZaz09-_":
                    x = k[:p] + d + k[p + 1:]
                    if x not in known and x not in seen:
                        seen.add(x)
                        out.append(x)
    return out


def check(ctx):
    tys = ml.implementors(ctx.W)
    items = []
    for ty in tys:
        for code in spec.MATTER:
            if spec.MATTER[code][4] is not None:
                items.append((ty, code, spec.raw_size(code)))
            else:
                ls = spec.MATTER[code][3]
                items.append((ty, code, 9 - ls))
    ctx.pmap(strict, items)
    ctx.pmap(foreign, items if ctx.thorough else [i for i in items if i[0].endswith("Verfer") or i[1] in ("B", "0A", "0B", "1AAA", "4A", "5A", "6A", "8AAA")])
    ctx.pmap(oversize, [i[:2] for i in items if spec.MATTER[i[1]][4] is None and (ctx.thorough or i[0].endswith("Verfer"))])
    bc = bad_codes(ctx)
    ty = [t for t in tys if t.endswith("Verfer")] or tys[:1]
    ctx.pmap(unknown, [(ty[0], bc[i::64]) for i in range(64)])
    for t in tys:
        if t != ty[0]:
            pass
    ctx.pmap(unknown, [(t, ["a", "0Z", "1AAZ", "2AAB", "4C", "7AAC", "-", "_"]) for t in tys])
    ctx.info["undefined_codes_tried"] = len(bc)
    ctx.info["types"] = [ml.last(t) for t in tys]
