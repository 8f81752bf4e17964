"""Matter codec obligations shared by the Matter checks."""
import lib
import spec
from domain import Agg, Alt, S, Seq, sstr, symbytes
from absint import NEVER


def implementors(W, trait="Matter"):
    """local types implementing the trait, in a stable order"""
    out = []
    for im in W.facts["impls"]:
        if (im.get("trait") or "").endswith("::" + trait) and im.get("self") and not im.get("generic"):
            if im["self"] in W.adts:
                out.append(im["self"])
    return sorted(set(out))


def last(p):
    return p.rsplit("::", 1)[1]


def opt(x):
    return Agg(0, ()) if x is None else Agg(1, (x,))


class M:
    """trait-level Matter calls on one implementor"""

    def __init__(self, ctx, ty, trait="Matter"):
        self.ctx = ctx
        self.W = ctx.W
        self.ty = ty
        self.trait = trait

    def fi(self, name):
        return self.W.trait_method(self.ty, self.trait, name)

    def where(self, name):
        return self.W.loc(self.fi(name))

    def call(self, r, name, *args):
        return r.call(self.fi(name), *args)

    def get(self, r, obj, name):
        """value of a &self method with references resolved; Result unwrapped when definitely Ok"""
        o = r.call(self.fi(name), obj)
        if o.never:
            return NEVER
        v = r.deep(o.v)
        return v

    def observe(self, key, r, obj, want, where, what):
        """obligations on the observable parts of a decoded/constructed value"""
        ctx = self.ctx
        res = True
        for name, w in want.items():
            v = self.get(r, obj, name)
            if name in ("qb64", "qb64b", "qb2", "full_size") and type(v) is Agg and v.v == 0 and v.f:
                v = v.f[0]
            k = "%s/%s" % (key, name)
            if name in ("qb64", "qb64b", "qb2", "full_size") and type(v) is Alt and r.modelled():
                sat, pc = r.err_witness(v)
                if sat is True:
                    from world import show_pc
                    from check import short
                    ctx.fail(k, where, "%s: %s() is an error when %s" % (what, name, short(show_pc(pc))))
                    res = False
                    continue
            x = ctx.eq(k, r, v, w, where, "%s: %s()" % (what, name))
            res = res and x
        return res


def full_want(code, n, raw, soft=()):
    hs, ss, ls, fs = spec.MATTER[code][1:]
    t = lib.text(code, soft, raw, ls)
    return {"code": S(code), "raw": Seq(tuple(raw)), "qb64": t, "qb64b": t, "qb2": lib.binary(t), "full_size": len(t.e)}
