"""Counter codec, decided over symbolic counts (one run per number of significant sextets): construction, text and
binary encoding and decoding agree with the CESR counter layout for every code and every representable count; counts
that do not fit, undefined codes and truncated material are refused without a panic."""
import idxlib as ix
import lib
import spec
from domain import B64, Agg, S, Seq, symbit

RULE = "one obligation per (counter code, count class, form, accessor) and per malformation"
FLOOR = 50
NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


def obs(ctx, key, r, o, want, where, what):
    W = ctx.W
    for name, w in want.items():
        args = (0,) if name == "count_as_b64" else ()
        x = r.call(W.method("Counter", name), o, *args)
        v = r.deep(x.v) if not x.never else x.v
        if name in ("qb64", "qb64b", "qb2", "full_size", "count_as_b64") and type(v) is Agg and v.v == 0 and v.f:
            v = v.f[0]
        ctx.eq("%s/%s" % (key, name), r, v, w, where, "%s: %s()" % (what, name))


def digits(ctx, key, r, o, k, ss, dig, where, what):
    """count_as_b64 of a width that holds the count"""
    for n in (x for x in range(1, 8) if x >= k):
        w = max(n, 1)
        want = Seq((65,) * (w - ss) + tuple(dig[max(0, ss - w):]))
        x = r.call(ctx.W.method("Counter", "count_as_b64"), o, n)
        v = r.deep(x.v) if not x.never else x.v
        if type(v) is Agg and v.v == 0 and v.f:
            v = v.f[0]
        ctx.eq("%s/count_as_b64-%d" % (key, n), r, v, want, where, "%s: count_as_b64(%d)" % (what, n))


def widths(ctx, v):
    """count_as_b64 of one count for every width that holds it"""
    W = ctx.W
    code = "-A" if v < 4096 else "-0V"
    hs, ss = spec.COUNTER[code][1:3]
    if v >= 1 << (6 * ss):
        return
    k = max(1, (v.bit_length() + 5) // 6)
    for n in (x for x in range(0, 8) if not x or x >= k):
        r = W.run()
        fi = W.method("Counter", "new_with_code_and_count")
        o = r.call(fi, r.s(code), v)
        if o.kind() != "ok":
            ctx.unknown("width/%d" % v, "no counter")
            return
        x = r.call(W.method("Counter", "count_as_b64"), r.ref(o.okv()), n)
        g = r.deep(x.v) if not x.never else x.v
        if type(g) is Agg and g.v == 0 and g.f:
            g = g.f[0]
        ctx.eq("width/%d/%d" % (v, n), r, g, Seq(lib.b64int(v, max(n or ss, k))), W.loc(W.method("Counter", "count_as_b64")), "count_as_b64(%d) of a Counter of %d" % (n, v))
        ctx.seen(r)


def classes(ss):
    out = []
    for k in range(0, ss + 1):
        v, d, nz = 0, lib.b64int(0, ss), ()
        if k:
            n = 6 * k
            v = lib.symint("count%d" % k, n)
            from domain import tobits, mkch
            b = tobits(v, 32) + (0,) * (6 * ss)
            d = tuple(mkch(b[6 * (ss - 1 - i):6 * (ss - i)]) for i in range(ss))
            nz = (frozenset(symbit("count%d" % k, i) for i in range(6 * (k - 1), n)),)
        out.append((v, d, nz))
    return out


def rt(ctx, code, k):
    W = ctx.W
    cname, hs, ss, fs = spec.COUNTER[code]
    v, dig, nz = classes(ss)[k]
    t = Seq(tuple(code.encode()) + dig)
    b = lib.binary(t)
    want = {"code": S(code), "count": v, "qb64": t, "qb64b": t, "qb2": b, "full_size": fs, "count_as_b64": Seq(dig)}
    key = "%s/%d" % (code, k)
    for name, args in (
        ("new", lambda r: (some(v), NONE, some(r.s(code)), NONE, NONE, NONE)),
        ("new_with_code_and_count", lambda r: (r.s(code), v)),
        ("new", lambda r: (NONE, some(r.ref(Seq(dig))), some(r.s(code)), NONE, NONE, NONE)),
        ("new", lambda r: (NONE, NONE, NONE, some(r.ref(t)), NONE, NONE)),
        ("new", lambda r: (NONE, NONE, NONE, NONE, some(r.ref(t)), NONE)),
        ("new", lambda r: (NONE, NONE, NONE, NONE, NONE, some(r.ref(b)))),
        ("new_with_qb64", lambda r: (r.ref(t),)),
        ("new_with_qb64b", lambda r: (r.ref(t),)),
        ("new_with_qb2", lambda r: (r.ref(b),)),
    ):
        r = W.run(nz=nz)
        a = args(r)
        fi = W.method("Counter", name)
        o = r.call(fi, *a)
        kk = "%s/%s%s" % (key, name, "".join(str(int(type(x) is Agg and x.v == 1)) for x in a) if name == "new" else "")
        what = "Counter %s with a count of %d sextets via %s" % (code, k, name)
        val = ctx.must_ok(kk, r, o, W.loc(fi), what)
        if val is not None:
            obs(ctx, kk, r, r.ref(val), want, W.loc(fi), what)
            if name == "new_with_qb64":
                digits(ctx, kk, r, r.ref(val), k, ss, dig, W.loc(fi), what)
        ctx.seen(r)
    # default count
    if k == 0:
        r = W.run()
        fi = W.method("Counter", "new")
        o = r.call(fi, NONE, NONE, some(r.s(code)), NONE, NONE, NONE)
        val = ctx.must_ok(key + "/default", r, o, W.loc(fi), "Counter %s without a count" % code)
        if val is not None:
            obs(ctx, key + "/default", r, r.ref(val), {"count": 1, "code": S(code)}, W.loc(fi), "Counter %s without a count" % code)


def bad(ctx, code):
    W = ctx.W
    cname, hs, ss, fs = spec.COUNTER[code]
    # too large a count: each possible top bit beyond the soft size
    for i in range(6 * ss, 32):
        r = W.run()
        from domain import mkbits
        v = mkbits(tuple(symbit("big", j) for j in range(i)) + (1,) + (0,) * (31 - i))
        for nm in ("new_with_code_and_count",):
            fi = W.method("Counter", nm)
            o = r.call(fi, r.s(code), v)
            ctx.must_err("%s/over/%d" % (code, i), r, o, W.loc(fi), "Counter %s with a count of %d bits" % (code, i + 1))
            ctx.seen(r)
    t = Seq(tuple(code.encode()) + lib.symchars("c", ss))
    b = lib.binary(t)
    for form, a in (("qb64", t), ("qb64b", t), ("qb2", b)):
        fi = W.method("Counter", "new_with_" + form)
        for cut in range(len(a.e)):
            r = W.run()
            o = r.call(fi, r.ref(Seq(a.e[:cut])))
            ctx.must_err("%s/cut-%d/%s" % (code, cut, form), r, o, W.loc(fi), "Counter %s of %s cut to %d" % (form, code, cut))
            ctx.seen(r)
        r = W.run()
        extra = lib.symchars("more", 3) if form != "qb2" else (7, 9)
        o = r.call(fi, r.ref(Seq(a.e + tuple(extra))))
        v = ctx.must_ok("%s/trail/%s" % (code, form), r, o, W.loc(fi), "Counter %s of %s followed by more material" % (form, code))
        if v is not None:
            # canonical decode of the bare form
            r2 = W.run()
            o2 = r2.call(fi, r2.ref(a))
            if o2.kind() == "ok":
                ctx.eq("%s/trail-eq/%s" % (code, form), r, r.deep(o.v), r2.deep(o2.v), W.loc(fi),
                       "Counter of %s followed by more material" % code)
    for p in range(ss):
        for ch in b"=+/ .":
            e = list(t.e)
            e[hs + p] = ch
            r = W.run()
            fi = W.method("Counter", "new_with_qb64")
            o = r.call(fi, r.ref(Seq(tuple(e))))
            ctx.must_err("%s/alphabet-%d-%02x" % (code, p, ch), r, o, W.loc(fi), "Counter text of %s with %r in its count" % (code, chr(ch)))
            ctx.seen(r)


def unknown(ctx, cands):
    W = ctx.W
    for c in cands:
        r = W.run()
        fi = W.method("Counter", "new_with_code_and_count")
        o = r.call(fi, r.s(c), 1)
        ctx.must_err("unknown/%s" % c, r, o, W.loc(fi), "Counter with the undefined code %r" % c)
        t = Seq(tuple(c.encode()) + lib.symchars("c", 12 - len(c)))
        if len(c) < 2:
            continue
        for form, a in (("qb64", t), ("qb2", lib.binary(t))):
            r = W.run()
            fi = W.method("Counter", "new_with_" + form)
            o = r.call(fi, r.ref(a))
            ctx.must_err("unknown/%s/%s" % (c, form), r, o, W.loc(fi), "Counter %s starting with the undefined code %r" % (form, c))
            ctx.seen(r)


WIDTHS = [0, 1, 2, 61, 62, 63, 64, 65, 127, 128, 4031, 4032, 4094, 4095, 4096, 4097, 65535, 65536, 262143, 262144, 16777215, 16777216, 16777217, (1 << 30) - 1]


def texts(ctx, code, text, want):
    """a counter made of its count as base64url text: want is the count, or None for text that must be refused"""
    W = ctx.W
    fi = W.method("Counter", "new")
    r = W.run()
    key = "count_b64/%s/%s" % (code, text if len(text) < 40 else "%s..%d" % (text[:20], len(text)))
    what = "Counter::new of code %s with the count %r in base64url" % (code, text)
    o = r.call(fi, NONE, some(r.s(text)), some(r.s(code)), NONE, NONE, NONE)
    if want is None:
        ctx.must_err(key, r, o, W.loc(fi), what)
    else:
        v = ctx.must_ok(key, r, o, W.loc(fi), what)
        if v is not None:
            x = r.ref(v)
            for m, w in (("count", want), ("code", S(code))):
                y = r.call(W.method("Counter", m), x)
                ctx.eq("%s/%s" % (key, m), r, r.deep(y.v) if not y.never else y.v, w, W.loc(fi), "%s: %s()" % (what, m))
    ctx.seen(r)


def b64(n, w):
    return "".join(map(chr, lib.b64int(n, w)))


def check(ctx):
    cases = []
    for code in spec.COUNTER:
        top = 64 ** spec.COUNTER[code][2]
        for v in sorted({0, 1, 2, 62, 63, 64, 65, 4095, 4096, top - 1, top, top + 1, 1 << 26, 1 << 30, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 36) + 5, (1 << 48) + 1, (1 << 60) + 2, (1 << 64) + 1, (1 << 66) + 3}):
            k = max(1, (v.bit_length() + 5) // 6)
            cases += [(code, b64(v, w), v if v < top else None) for w in sorted({k, k + 1, 8, 12}) if w >= k]
        cases += [(code, t, None) for t in ("+", "=", "A=", " B", "B ", "A/", "\u00e9", "B\n", "\0", "AAAAAAAAAAA=")]
    ctx.pmap(texts, cases)
    ctx.pmap(widths, [(v,) for v in WIDTHS])
    ctx.pmap(rt, [(c, k) for c in spec.COUNTER for k in range(spec.COUNTER[c][2] + 1)])
    ctx.pmap(bad, [(c,) for c in spec.COUNTER])
    cands = [""]
    cands += ["-" + x for x in B64 if "-" + x not in spec.COUNTER and x not in "0-"]
    cands += ["-0" + x for x in B64 if x != "V"]
    cands += ["--AA" + x for x in B64 if x != "A"] + ["--A" + x + "A" for x in B64 if x != "A"] + ["--" + x + "AA" for x in B64 if x != "A"]
    cands += ["A" + x for x in "AB-_09"] + ["_A", "__", "0A", "1A", "4A", "7A"]
    ctx.pmap(unknown, [(cands[i::16],) for i in range(16)])
    ctx.info["codes"] = len(spec.COUNTER)
    ctx.info["undefined_codes_tried"] = len(cands)
