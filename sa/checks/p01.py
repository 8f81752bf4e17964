"""Names mean their registered codes: every public codex constant is the code the CESR / KERI registry gives that name, code sets (current-only,
both lists) are exactly the registered subsets, and the class of a primitive (digestive, transferable) follows its code."""
import matterlib as ml
import spec
from domain import Seq, symbytes
from world import Missing

RULE = "one obligation per named constant, per (code set, code) and per (type, code, class question)"
FLOOR = 1000
ILK = "icp rot ixn dip drt rct ksn qry rpy exn pro bar vcp vrt iss rev bis brv".split()
IDS = dict({k: k for k in "id i d t k n b a s f v kt nt di".split()}, dollar="$id", at="@id")


def names(ctx, mod, want, opt=()):
    W = ctx.W
    got = W.consts(mod)
    if not got:
        ctx.unknown("%s" % mod, "no constants found in module %s" % mod)
        return
    for n, c in want.items():
        k = "%s/%s" % (mod, n)
        if n not in got:
            ctx.unknown(k, "constant %s::%s not found" % (mod, n))
        elif got[n] != c:
            ctx.fail(k, "%s::%s" % (mod, n), "the constant %s is %r, its registered code is %r" % (n, got[n], c))
        else:
            ctx.ok(k)
    # a code outside the registry would collide or be unparsable
    for n, c in got.items():
        if n not in want and n not in opt and isinstance(c, str):
            if c in want.values():
                ctx.fail("%s/%s" % (mod, n), "%s::%s" % (mod, n), "the unregistered name %s has the code %r of another name" % (n, c))


def classes(ctx, ty, code):
    W = ctx.W
    m = ml.M(ctx, ty)
    n = ml.last(ty)
    fs = spec.MATTER[code][4]
    size = spec.raw_size(code) if fs is not None else 9 - spec.MATTER[code][3]
    r = W.run()
    w = m.where("new_with_code_and_raw")
    o = m.call(r, "new_with_code_and_raw", r.s(code), r.ref(symbytes("raw", size)))
    v = ctx.must_ok("%s/%s/new" % (n, code), r, o, w, "%s with code %s" % (n, code))
    if v is None:
        return
    name = spec.MATTER[code][0]
    for q, want in (("digestive", name in spec.DIGESTS), ("transferable", name not in spec.NONTRANS)):
        ctx.eq("%s/%s/%s" % (n, code, q), r, m.get(r, r.ref(v), q), int(want), m.where(q), "%s with code %s (%s): %s()" % (n, code, name, q))
    ctx.seen(r)


def sets(ctx):
    W = ctx.W
    for mod, codes in (("CurrentSigCodex", spec.CURRENT_ONLY), ("BothSigCodex", spec.BOTH)):
        try:
            fi = W.fn("crate::core::indexer::tables::%s::has_code" % mod)
        except Missing:
            ctx.info["no_" + mod] = True
            continue
        for c in list(spec.INDEXER) + ["", "0z", "A ", "AA", "Z", "2Z", "a"]:
            r = W.run()
            o = r.call(fi, r.s(c))
            ctx.eq("%s/%s" % (mod, c), r, r.deep(o.v), int(c in codes), W.loc(fi), "%s contains %r" % (mod, c))
            ctx.seen(r)


def check(ctx):
    t = "core::matter::tables::Codex"
    names(ctx, t, spec.MCODE)
    sig = dict(spec.ICODE)
    names(ctx, "core::indexer::tables::Codex", sig, ("TBD0", "TBD1", "TBD4"))
    names(ctx, "core::indexer::tables::SigCodex", sig)
    names(ctx, "core::indexer::tables::CurrentSigCodex", {spec.INDEXER[c][0]: c for c in spec.CURRENT_ONLY})
    names(ctx, "core::indexer::tables::BothSigCodex", {spec.INDEXER[c][0]: c for c in spec.BOTH})
    names(ctx, "core::counter::tables::Codex", {v[0]: c for c, v in spec.COUNTER.items()})
    names(ctx, "core::bexter::tables::Codex", {n: c for c, n in ((c, v[0]) for c, v in spec.MATTER.items()) if n.startswith("StrB64")})
    names(ctx, "core::number::tables::Codex", {"Short": "M", "Long": "0H", "Big": "N", "Huge": "0A"})
    names(ctx, "core::common::Ilkage", {k: k for k in ILK})
    names(ctx, "core::common::Ids", IDS)
    names(ctx, "core::common::Serialage", {"JSON": "JSON"})
    names(ctx, "core::common::Identage", {"KERI": "KERI", "ACDC": "ACDC"})
    names(ctx, "core::common::Tierage", {k: k for k in ("low", "med", "high", "min")})
    sets(ctx)
    ctx.pmap(classes, [(ty, c) for ty in ml.implementors(ctx.W) for c in spec.MATTER])
