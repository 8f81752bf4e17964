"""Key events and credentials report exactly their fields: keys, next digests, witnesses, thresholds, sequence numbers, prefix and event
class of an event, and issuer, schema, subject, status and chains of a credential, are those of the fields; absent optional fields give the
documented empty answer and malformed ones an error, never a panic."""
import lib
import prims
import vals
from domain import Agg, S, Seq, mkbits, symbit, symbytes
from lib import symchars
from matterlib import opt
from pathlib_ import each, answer, same
from checks.p21 import hexes, vs
from checks.p34 import new, said

RULE = "one obligation per (accessor, field content); keys, digests, numbers and texts are unknown"
FLOOR = 350
ONE, ZERO = (1, 0, 0, 0), (0, 0, 0, 0)
ILKS = ["icp", "rot", "ixn", "dip", "drt", "rct", "ksn", "qry", "rpy", "exn", "exp", "fwd", "vcp", "vrt", "iss", "rev", "bis", "brv", "", "ICP", "ic", "icpp", " icp", "xip", "roT", "dri", "pro", "bar", "rep", "ACDC"]
EST = {"icp", "rot", "dip", "drt"}
ERR = object()
PANICS = {("Creder", "subject")}  # documented to return a plain value, not a Result; absent field is outside this property


def base(ty, **f):
    d = {"v": vs("KERI" if ty == "Serder" else "ACDC", ONE, ZERO), "d": said()}
    d.update(f)
    return d


def ask(ctx, ty, m, name, fields, judge):
    """judge(p, key, what, bad, kind, value) gets the accessor's answer on a message with these fields"""
    W = ctx.W
    r = W.run()
    fi, args = new(ctx, ty, r, ked=vals.val(base(ty, **fields)))
    o = r.call(fi, *args)
    k = "%s/%s/%s" % (ty, m, name)
    if o.kind() != "ok":
        ctx.unknown(k, "no message: %s" % o.kind())
        return
    x = r.ref(o.okv())
    fi = W.method(ty, m)
    what = "%s::%s of a message with %s" % (ty, m, name)

    def fn(p, kk, w, bad):
        if m in ("crd", "subject"):
            kind, v = ("panic", "") if p.out.never else ("ok", p.run.deep(p.out.v))
        else:
            kind, v = answer(p)
        if kind == "panic":
            bad(kk, "%s: panics: %s" % (w, v))
        elif kind is None:
            ctx.unknown(kk, "%s: %s" % (w, v))
        else:
            judge(p, kk, w, bad, kind, v)
    each(ctx, k, r, fi, [x], what, fn)


def err(ctx):
    def f(p, k, w, bad, kind, v):
        if kind == "err":
            ctx.ok(k)
        else:
            bad(k, "%s: answers instead of refusing" % w)
    return f


def is_(ctx, want):
    def f(p, k, w, bad, kind, v):
        if kind == "err":
            bad(k, "%s: is refused (%s)" % (w, v))
        else:
            same(ctx, p, k, w, bad, v, want, "the answer")
    return f


def prim(ctx, p, k, w, bad, ty, v, code, raw):
    x = p.run.ref(v)
    same(ctx, p, k + "/code", w, bad, p.run.get(x, ty, "code"), S(code), "its code")
    same(ctx, p, k + "/raw", w, bad, p.run.get(x, ty, "raw"), raw, "its raw material")


def plist(ctx, ty, want):
    def f(p, k, w, bad, kind, v):
        if kind == "err":
            bad(k, "%s: is refused (%s)" % (w, v))
            return
        if type(v) is not Seq or v.chunked:
            ctx.unknown(k, w)
            return
        if len(v.e) != len(want):
            bad(k, "%s: %d elements, expected %d" % (w, len(v.e), len(want)))
            return
        ctx.ok(k)
        for i, (x, (c, raw)) in enumerate(zip(v.e, want)):
            prim(ctx, p, "%s/%d" % (k, i), w, bad, ty, x, c, raw)
    return f


def material(codes, tag):
    out = []
    for i, c in enumerate(codes):
        raw = symbytes("%s%d" % (tag, i), prims.nraw(c))
        out.append((c, raw, prims.forms(c, raw)[0]))
    return out


def lists(ctx, m, label, ty, codes, which=None):
    """which: the same elements more than once"""
    ms = material(codes, label)
    if which:
        ms = [ms[i] for i in which]
    ask(ctx, "Serder", m, "%s of codes %s%s" % (label, ",".join(codes), " as %s" % (which,) if which else ""), {"t": "icp", label: [t for _, _, t in ms], "other": []}, plist(ctx, ty, [(c, r) for c, r, _ in ms]))


def listsbad(ctx, m, name, fields, judge):
    ask(ctx, "Serder", m, name, fields, err(ctx) if judge is ERR else judge)


def thold(ctx, m, label, sith, lim):
    W = ctx.W

    def f(p, k, w, bad, kind, v):
        if kind == "err":
            bad(k, "%s: is refused (%s)" % (w, v))
            return
        if not (type(v) is Agg and v.v == 1):
            (bad if type(v) is Agg else ctx.unknown)(k, w + ": no threshold")
            return
        ctx.ok(k)
        x = p.run.ref(v.f[0])
        for mm, want in (("sith", vals.val(sith if not isinstance(sith, int) else "%x" % sith)), ("limen", lim)):
            o = p.run.call(W.method("Tholder", mm), x)
            if o.kind() == "ok":
                same(ctx, p, k + "/" + mm, w, bad, p.run.deep(o.okv()), want, "its " + mm)
            else:
                (bad if o.kind() in ("err", "panic") else ctx.unknown)(k + "/" + mm, w)
    ask(ctx, "Serder", m, "%s %s" % (label, sith), {"t": "icp", label: vals_or(sith), ("nt" if label == "kt" else "kt"): "7"}, f)


def vals_or(x):
    return x


def number(ctx, m, label, how, k):
    """sn / sner / fner / _fn of any number whose highest bit is k"""
    W = ctx.W
    bits = tuple(symbit("n", i) if i < k else 1 if i == k else 0 for i in range(128))
    n = mkbits(bits)
    if how == "hex":
        t = Seq(hexes(bits, (k + 4) // 4 if k >= 0 else 1))
    else:
        code, size = ("M", 2) if k < 16 else ("0H", 4) if k < 32 else ("N", 8) if k < 64 else ("0A", 16)
        raw = Seq(tuple(mkbits(bits[8 * i:8 * i + 8]) for i in reversed(range(size))))
        t = prims.forms(code, raw)[0]

    def f(p, kk, w, bad, kind, v):
        if kind == "err":
            bad(kk, "%s: is refused (%s)" % (w, v))
            return
        if m in ("sner", "fner"):
            if m == "fner":
                if not (type(v) is Agg and v.v == 1):
                    (bad if type(v) is Agg else ctx.unknown)(kk, w + ": no number")
                    return
                v = v.f[0]
            o = p.run.call(W.method("Number", "num"), p.run.ref(v))
            if o.kind() != "ok":
                (bad if o.kind() in ("err", "panic") else ctx.unknown)(kk, w)
                return
            v = p.run.deep(o.okv())
        same(ctx, p, kk, w, bad, v, n, "the number")
    ask(ctx, "Serder", m, "%s a %s number with highest bit %d" % (label, how, k), {"t": "rot", label: t, ("f" if label == "s" else "s"): "11" if label == "s" else "5"}, f)


def simple(ctx, ty, m, name, fields, want):
    ask(ctx, ty, m, name, fields, err(ctx) if want is ERR else is_(ctx, want))


def check(ctx):
    V = list(prims.VERF)
    D = list(prims.DIG)
    # lists of keys, digests and witnesses
    for m, lab, ty, codes in (("verfers", "k", "Verfer", V), ("digers", "n", "Diger", D), ("werfers", "b", "Verfer", V)):
        combos = [[], [codes[0]], [codes[1], codes[0]], [codes[0]] * 4] + [[c] for c in codes] + [codes[:5], codes[:1] + codes[3:5] + codes[:1]]
        combos += [[codes[0]] * n for n in sorted({8, 13, 20, 33} | {v + d for v in lib.around(ctx.W, ("src/core/serder.rs",), lo=5, hi=200) for d in (0, 1, 3)})]
        ctx.pmap(lists, [(m, lab, ty, c) for c in combos])
        ctx.pmap(lists, [(m, lab, ty, codes[:2], w) for w in ((0, 0), (0, 1, 0), (0, 0, 1, 1), (1, 0, 0, 0), (0, 1, 1, 0, 1))])
        good = material([codes[0], codes[1]], "g")
        t0, t1 = good[0][2], good[1][2]
        wrong = prims.forms("E" if ty == "Verfer" else "B", symbytes("w", 32))[0]
        bad = [("a number among " + lab, {lab: [t0, 5]}), ("null among " + lab, {lab: [None]}), ("an empty text among " + lab, {lab: [t0, ""]}), ("plain text among " + lab, {lab: ["hello"]}),
               ("a truncated element in " + lab, {lab: [t0, Seq(t1.e[:-1])]}), ("a foreign primitive in " + lab, {lab: [t0, wrong, t1]}), ("a nested array in " + lab, {lab: [[t0]]})]
        ctx.pmap(listsbad, [(m, n, dict(f, t="icp"), ERR) for n, f in bad])
        absent = plist(ctx, ty, [])
        listsbad(ctx, m, "no " + lab, {"t": "ixn"}, absent)
        others = {"k": [t0], "n": [t0], "b": [t0]}
        del others[lab]
        listsbad(ctx, m, "no %s but others" % lab, dict(others, t="ixn"), absent)
        if m != "werfers":
            listsbad(ctx, m, "an empty text as " + lab, {lab: "", "t": "ixn"}, absent)
        else:
            listsbad(ctx, m, "an empty text as " + lab, {lab: "", "t": "ixn"}, ERR)
    # thresholds
    from checks.p20 import limen
    from checks.p27 import be
    lims = [("1", prims.forms("M", be(1, 2))[0]), ("f", prims.forms("M", be(15, 2))[0]), ("10000", prims.forms("0H", be(65536, 4))[0]), (2, prims.forms("M", be(2, 2))[0]),
            (["1/2", "1/2"], limen((("1/2", "1/2"),))), ([["1", "1"], ["1/2", "1/2"]], limen((("1", "1"), ("1/2", "1/2"))))]
    ctx.pmap(thold, [(m, lab, s, l) for m, lab in (("tholder", "kt"), ("ntholder", "nt")) for s, l in lims])
    for m, lab, other in (("tholder", "kt", "nt"), ("ntholder", "nt", "kt")):
        simple(ctx, "Serder", m, "no " + lab, {"t": "icp", other: "1"}, opt(None))
        for b in ("", "x", ["1/2"], [], None, True, -1, ["3/2"]):
            simple(ctx, "Serder", m, "%s being %r" % (lab, b), {"t": "icp", lab: b, other: "1"}, ERR)
    # numbers
    ctx.pmap(number, [(m, "s", "hex", k) for m in ("sn", "sner") for k in list(range(-1, 40)) + [63, 64, 100, 127]])
    ctx.pmap(number, [(m, "f", "qualified", k) for m in ("_fn", "fner") for k in list(range(-1, 40)) + [63, 64, 100, 127]])
    work = []
    for m in ("sn", "sner"):
        for b in (ERR, None, 5, "x", "-1", "1.5", "g", "0x1", " 1", [], True, "1" + "0" * 32):
            f = {"t": "icp", "f": "MAAA"}
            if b is not ERR:
                f["s"] = b
            work.append(("Serder", m, "s %s" % ("absent" if b is ERR else repr(b)), f, ERR))
    work.append(("Serder", "fner", "no f", {"t": "icp", "s": "1"}, opt(None)))
    work.append(("Serder", "_fn", "no f", {"t": "icp", "s": "1"}, ERR))
    for m in ("fner", "_fn"):
        for b in ("x", "", "M", "E" + "A" * 43, None, 3, "MAA"):
            work.append(("Serder", m, "f being %r" % (b,), {"t": "icp", "s": "1", "f": b}, ERR))
    # prefix
    pre = Seq(symchars("pre", 44))
    work += [("Serder", "pre", "i", {"t": "icp", "i": pre, "di": "x"}, pre), ("Serder", "preb", "i", {"t": "icp", "i": pre, "di": "x"}, pre),
             ("Serder", "pre", "an empty i", {"i": ""}, S("")), ("Serder", "pre", "no i", {"t": "icp", "di": "x"}, ERR), ("Serder", "preb", "no i", {"t": "icp", "di": "x"}, ERR),
             ("Serder", "pre", "a number i", {"i": 5}, ERR), ("Serder", "preb", "a null i", {"i": None}, ERR)]
    # event class
    work += [("Serder", "est", "ilk %r" % t, {"t": t, "et": "icp"}, int(t in EST)) for t in ILKS]
    work += [("Serder", "est", "no ilk", {"et": "icp"}, ERR), ("Serder", "est", "a null ilk", {"t": None}, ERR), ("Serder", "est", "a number ilk", {"t": 1}, ERR)]
    # credentials
    iss, sch, st = Seq(symchars("iss", 44)), Seq(symchars("sch", 44)), Seq(symchars("st", 44))
    subj = {"d": "", "i": Seq(symchars("si", 44)), "LEI": [1, None, {"x": True}]}
    chain = {"d": Seq(symchars("ed", 44)), "qvi": {"n": Seq(symchars("en", 44)), "s": ""}}
    full = {"i": iss, "ri": st, "s": sch, "a": subj, "e": chain, "r": [{"x": 1}]}
    work += [("Creder", "issuer", "all fields", full, iss), ("Creder", "schema", "all fields", full, sch), ("Creder", "subject", "all fields", full, vals.val(subj)),
             ("Creder", "status", "all fields", full, opt(st)), ("Creder", "chains", "all fields", full, vals.val(chain))]
    for t in lib.ODD + ("",):
        work += [("Creder", m, "%s being %r" % (f, t), dict(full, **{f: t}), opt(S(t)) if m == "status" else S(t)) for f, m in (("i", "issuer"), ("s", "schema"), ("ri", "status"))]
        work += [("Serder", m, "i being %r" % t, {"t": "icp", "i": t, "di": "x"}, S(t)) for m in ("pre", "preb")]
        work += [("Creder", "subject", "a being %r" % t, dict(full, a=t), vals.val(t)), ("Creder", "subject", "a with %r" % t, dict(full, a={t: t, "i": ""}), vals.val({t: t, "i": ""})),
                 ("Creder", "chains", "e with %r" % t, dict(full, e={t: t, "i": ""}), vals.val({t: t, "i": ""}))]
    for drop, m, want in (("i", "issuer", ERR), ("s", "schema", ERR), ("ri", "status", opt(None)), ("e", "chains", vals.val({}))):
        work.append(("Creder", m, "no " + drop, {k: v for k, v in full.items() if k != drop}, want))
    for lab, m in (("i", "issuer"), ("s", "schema"), ("ri", "status")):
        for b in (5, None, [], {"a": 1}):
            work.append(("Creder", m, "%s being %r" % (lab, b), dict(full, **{lab: b}), ERR))
    for b in ("text", [], [1], 5, None):
        work.append(("Creder", "chains", "e being %r" % (b,), dict(full, e=b), vals.val(b)))
        work.append(("Creder", "subject", "a being %r" % (b,), dict(full, a=b), vals.val(b)))
    ctx.pmap(simple, work)
    ctx.pmap(whole, [(t, rev) for t in ILKS[:18] for rev in (0, 1)])
    ctx.pmap(crd, [(full,), ({},), ({"a": subj},)])


def whole(ctx, ilk, rev):
    """a message with every field any message has, whatever its class and their order: each accessor reads its own"""
    pre = {x: Seq(symchars("p" + x, 44)) for x in ("i", "p", "di", "ri", "e")}
    ks, ns, bs = (material(c, t) for c, t in ((["D", "B"], "k"), (["E"], "n"), (["B", "B"], "b")))
    br, ba = (material(["B"], t) for t in ("br", "ba"))
    text = lambda l: [x[2] for x in l]  # noqa: E731
    f = {"t": ilk, "i": pre["i"], "s": "1c", "p": pre["p"], "kt": "2", "k": text(ks), "nt": "1", "n": text(ns), "bt": "3", "b": text(bs), "br": text(br), "ba": text(ba), "c": ["EO"],
         "a": [{"i": pre["e"], "s": "5", "d": pre["p"]}], "di": pre["di"], "ri": pre["ri"], "f": prims.forms("M", Seq((0, 9)))[0], "sn": "77", "et": "icp", "ii": pre["e"], "x": ""}
    if rev:
        f = dict(reversed(list(f.items())))
    n = "every field, class %r%s" % (ilk, " reversed" if rev else "")
    num = lambda want: (lambda p, k, w, bad, kind, v: bad(k, "%s: is refused (%s)" % (w, v)) if kind == "err" else same(ctx, p, k, w, bad, v, want, "the number"))  # noqa: E731
    for m, ty, l in (("verfers", "Verfer", ks), ("digers", "Diger", ns), ("werfers", "Verfer", bs)):
        ask(ctx, "Serder", m, n, f, plist(ctx, ty, [(c, r) for c, r, _ in l]))
    ask(ctx, "Serder", "sn", n, f, num(0x1c))
    ask(ctx, "Serder", "_fn", n, f, num(9))
    ask(ctx, "Serder", "pre", n, f, is_(ctx, pre["i"]))
    ask(ctx, "Serder", "preb", n, f, is_(ctx, pre["i"]))
    ask(ctx, "Serder", "est", n, f, is_(ctx, int(ilk in EST)))
    for m, want in (("tholder", "2"), ("ntholder", "1")):
        def sith(p, k, w, bad, kind, v, want=want):
            if kind == "err" or not (type(v) is Agg and v.v == 1):
                (bad if kind == "err" or type(v) is Agg else ctx.unknown)(k, w + ": no threshold")
                return
            o = p.run.call(ctx.W.method("Tholder", "sith"), p.run.ref(v.f[0]))
            if o.kind() == "ok":
                same(ctx, p, k, w, bad, p.run.deep(o.okv()), vals.val(want), "its sith")
            else:
                ctx.unknown(k, w)
        ask(ctx, "Serder", m, n, f, sith)
    subj = {"i": pre["p"], "d": ""}
    cf = dict(f, s=pre["di"], a=subj, e={"d": pre["e"]})
    for m, want in (("issuer", pre["i"]), ("schema", pre["di"]), ("subject", vals.val(subj)), ("status", opt(pre["ri"])), ("chains", vals.val({"d": pre["e"]}))):
        ask(ctx, "Creder", m, n, cf, is_(ctx, want))


def crd(ctx, fields):
    from checks.p34 import sized
    want = sized(base("Creder", **fields), "ACDC")
    ask(ctx, "Creder", "crd", "%d fields" % len(fields), fields, is_(ctx, vals.val(want)))
