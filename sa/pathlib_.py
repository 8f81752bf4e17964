"""Verdicts over partitioned paths."""
from absint import inexact
from check import pt, short
from domain import Agg, Alt, OneOf, show
from world import sat, show_pc


def answer(p):
    """definite result of a Result-valued path: ('ok', value) | ('err', name) | ('panic', text) | (None, text)"""
    r = p.run
    k = p.out.kind()
    if k == "panic":
        return "panic", "; ".join(sorted({pt(e) for e in p.events if e.kind == "panic"})[:3])
    if k == "err":
        return "err", p.out.errname()
    if k == "ok":
        return "ok", r.deep(p.out.okv())
    return None, short(show(r.deep(p.out.v))) if p.out.v is not None else "?"


def each(ctx, key, r, fi, args, what, fn, cap=64):
    """run fn(path, subkey, what, bad) for every path; bad(key, msg) reports a violation only when the path is certain"""
    W = r.W
    ps, complete = r.paths(fi, *args, cap=cap)
    ctx.seen(r)
    if not complete:
        ctx.unknown(key + "/paths", what + ": not all paths enumerated")
    for n, p in enumerate(ps):
        k = "%s/p%d" % (key, n) if len(ps) > 1 else key
        w = what + (" when " + short(show_pc(p.pc), 200) if p.pc else "")
        if not p.ok:
            ctx.unknown(k, "%s; unmodelled %s" % (w, sorted(map(str, r.I.unmodelled))[:4]))
            continue

        def bad(kk, msg, p=p):
            if p.feasible is True:
                ctx.fail(kk, W.loc(fi), msg, sure=True)
            else:
                ctx.unknown(kk, msg)
        with p:
            fn(p, k, w, bad)
    return ps


def bools(ctx, key, r, fi, args, want, what, cap=64, err_ok=False, direct=False):
    """obligation: on every path the (Result-wrapped) boolean answer is `want`; 'err' (also) allowed per want/err_ok"""
    def fn(p, k, w, bad):
        if direct:
            kind, v = ("panic", "") if p.out.never else ("ok", r.deep(p.out.v))
        else:
            kind, v = answer(p)
        if kind == "panic":
            bad(k, "%s: panics: %s" % (w, v))
        elif kind == "err":
            if want == "err" or err_ok:
                ctx.ok(k)
            else:
                bad(k, "%s: refused (%s), expected %s" % (w, v, want))
        elif kind == "ok":
            if type(v) is int:
                if want != "err" and bool(v) == want:
                    ctx.ok(k)
                else:
                    bad(k, "%s: answers %s, expected %s" % (w, bool(v), want))
            elif not inexact(v) and p.feasible is True and sat(p.pc + ((v, 1),), r.I.nz) is True and sat(p.pc + ((v, 0),), r.I.nz) is True:
                bad(k, "%s: the answer depends on %s, expected %s" % (w, short(show(v)), want))
            else:
                ctx.unknown(k, "%s: %s" % (w, short(show(v))))
        else:
            ctx.unknown(k, "%s: %s" % (w, v))
    return each(ctx, key, r, fi, args, what, fn, cap)


def errs(ctx, key, r, fi, args, what, cap=64, names=None):
    """obligation: every path returns an error"""
    def fn(p, k, w, bad):
        kind, v = answer(p)
        if kind == "err":
            if names and v is not None and v not in names:
                bad(k, "%s: error is %s, expected one of %s" % (w, v, ", ".join(names)))
            else:
                ctx.ok(k)
        elif kind == "panic":
            bad(k, "%s: panics instead of returning an error: %s" % (w, v))
        elif kind == "ok":
            bad(k, "%s: is accepted (%s)" % (w, short(show(v), 120)))
        else:
            ctx.unknown(k, "%s: %s" % (w, v))
    return each(ctx, key, r, fi, args, what, fn, cap)


def oks(ctx, key, r, fi, args, what, fn=None, cap=64):
    """obligation: every path succeeds; fn(p, k, w, bad, payload) judges the payload"""
    def f(p, k, w, bad):
        kind, v = answer(p)
        if kind == "ok":
            ctx.ok(k)
            if fn:
                fn(p, k, w, bad, v)
        elif kind == "err":
            bad(k, "%s: is refused (%s)" % (w, v))
        elif kind == "panic":
            bad(k, "%s: panics: %s" % (w, v))
        else:
            ctx.unknown(k, "%s: %s" % (w, v))
    return each(ctx, key, r, fi, args, what, f, cap)


def same(ctx, p, k, w, bad, got, want, what):
    """obligation on one path: equal abstract values"""
    from check import differs_when
    d = differs_when(got, want, p.run.I.nz, p.pc)
    if d is False:
        ctx.ok(k)
    elif d is True:
        bad(k, "%s: %s is %s, expected %s" % (w, what, short(show(got), 200), short(show(want), 200)))
    else:
        ctx.unknown(k, "%s: %s is %s, expected %s" % (w, what, short(show(got), 200), short(show(want), 200)))
