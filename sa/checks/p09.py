"""Semantic versions are three base64url characters, one per part; parts above 63, more than three parts and text that is no number are refused.
A count is given as base64url text of the asked length."""
import lib
import spec
from domain import B64, S, Seq, mkbits, symbit, mkch
from matterlib import opt
from pathlib_ import errs, oks, same

RULE = "one obligation per (form, part, value class); part values are unknown below 64 as numbers, enumerated as text"
FLOOR = 300
BAD = ["1.2.3.4", "1.2.3.", "...", "....", "a", "1.b.2", "1.2.c", "-1", "1.-1.0", "1.1.-63", "64", "0.64.0", "0.0.64", "127.0.0", "0.0.127", "128", "1.128.2", "255", "256", "1.0.300",
       " 1", "1 ", "1,2", "1.2 .3", "0x1", "1e1", "1.2.3-a", "A", "v1.0.0", "\u0661"]


def text(v):
    return S("".join(chr(B64[x]) if isinstance(B64[x], int) else B64[x] for x in v))


def numbers(ctx):
    W = ctx.W
    fi = W.method("Counter", "sem_ver_to_b64")
    r = W.run()
    v = [mkbits(tuple(symbit("part%d" % i, j) for j in range(6)) + (0, 0)) for i in range(3)]
    want = Seq(tuple(mkch(tuple(symbit("part%d" % i, j) for j in range(6))) for i in range(3)))
    oks(ctx, "num", r, fi, v, "sem_ver_to_b64 of parts below 64",
        lambda p, k, w, bad, got: same(ctx, p, k + "/text", w, bad, got, want, "the text"))
    for i in range(3):
        for top in (6, 7):
            r = W.run()
            v = [mkbits(tuple(symbit("part%d" % q, j) for j in range(6)) + (0, 0)) for q in range(3)]
            v[i] = mkbits(tuple(symbit("part%d" % i, j) if j != top else 1 for j in range(8)))
            errs(ctx, "num/over%d/%d" % (i, top), r, fi, v, "sem_ver_to_b64 with part %d of %d bits" % (i, top + 1))


def texts(ctx, cases):
    W = ctx.W
    fi = W.method("Counter", "sem_ver_str_to_b64")
    for s, v in cases:
        r = W.run()
        if v is None:
            errs(ctx, "text/%s" % s, r, fi, (r.s(s),), "sem_ver_str_to_b64 of %r" % s)
        else:
            oks(ctx, "text/%s" % s, r, fi, (r.s(s),), "sem_ver_str_to_b64 of %r" % s,
                lambda p, k, w, bad, got, v=v: same(ctx, p, k + "/b64", w, bad, got, text(v), "the text"))


def counts(ctx, code):
    W = ctx.W
    ss = spec.COUNTER[code][2]
    fi = W.method("Counter", "new_with_code_and_count")
    for n in range(1, ss + 1):
        for length in range(n, 7):
            r = W.run(nz=(frozenset(symbit("count", i) for i in range(6 * (n - 1), 6 * n)),) if n > 1 else ())
            c = lib.symint("count", 6 * n)
            bits = tuple(symbit("count", j) for j in range(6 * n)) + (0,) * 36
            want = Seq(tuple(mkch(bits[6 * (length - 1 - i):6 * (length - i)]) for i in range(length)))
            o = r.call(fi, r.s(code), c)
            v = ctx.must_ok("count/%s/%d/%d/new" % (code, n, length), r, o, W.loc(fi), "Counter %s" % code)
            if v is None:
                continue
            f2 = W.method("Counter", "count_as_b64")
            o = r.call(f2, r.ref(v), length)
            x = ctx.must_ok("count/%s/%d/%d" % (code, n, length), r, o, W.loc(f2), "count_as_b64(%d) of Counter %s with a count of %d sextets" % (length, code, n))
            if x is not None:
                ctx.eq("count/%s/%d/%d/text" % (code, n, length), r, r.deep(x), want, W.loc(f2), "count_as_b64(%d) of Counter %s with a count of %d sextets" % (length, code, n))
            ctx.seen(r)


def check(ctx):
    numbers(ctx)
    cases = []
    for i in range(3):
        for x in range(64):
            v = [1, 2, 3]
            v[i] = x
            cases.append((".".join(map(str, v)), v))
    for s, v in (("", [0, 0, 0]), ("1", [1, 0, 0]), ("63", [63, 0, 0]), ("1.2", [1, 2, 0]), ("1.", [1, 0, 0]), (".2", [0, 2, 0]), ("..3", [0, 0, 3]), ("1..3", [1, 0, 3]), ("..", [0, 0, 0]),
                 (".", [0, 0, 0]), ("1.2.", [1, 2, 0]), ("00.01.002", [0, 1, 2]), ("62.63.61", [62, 63, 61]), ("0.0.63", [0, 0, 63])):
        cases.append((s, v))
    cases += [(s, None) for s in BAD]
    ctx.pmap(texts, [(cases[i::8],) for i in range(8)])
    ctx.pmap(counts, [(c,) for c in ("-A", "-0V", "--AAA")])
