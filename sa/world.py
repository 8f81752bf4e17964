"""Convenience layer over the facts and the abstract interpreter: name lookup, runs, outcomes."""
import re
from fractions import Fraction

import absint
import facts as _facts
from models import PREDS
from absint import NEVER, Budget, Interp, inexact, norm_path
from domain import (Agg, Alt, Bits, Ch, Chunk, Obj, OneOf, Ref, S, Seq, Sym, V, _bit_names, is_top,
                    leaves, mkbits, sbytes, show, sstr, symbytes, tobits, top)


class Missing(Exception):
    """an anchor the analysis needs does not exist in the analysed program"""


class World:
    def __init__(self, crate="cesride", root=None):
        self.crate = crate
        self.visited = set()      # functions interpreted by any run
        self.facts = _facts.dump(crate, root or _facts.REPO)
        self.F = self.facts["fns"]
        self.T = self.facts["types"]
        self.idx = {}
        for i, f in enumerate(self.F):
            if "body" in f:
                self.idx.setdefault(norm_path(f["p"]), []).append(i)
        self.adts = {}
        for t in self.T:
            if t["k"] == "adt" and t.get("local") and not t.get("args"):
                self.adts[t["path"]] = t
        self.bylast = {}
        for p in self.adts:
            self.bylast.setdefault(p.rsplit("::", 1)[1], []).append(p)
        self.traitimpls = {}
        for im in self.facts["impls"]:
            if im.get("self") is None:
                continue
            s = im["self"]
            for n, inst in im.get("methods") or []:
                self.traitimpls.setdefault((s, n), []).append((im.get("trait"), inst))
        if crate == "cesride":
            import vals
            vals.bind(self)

    # ------------------------------------------------------------ lookup
    def adt(self, name):
        """path of a local type by its last path segment(s)"""
        if name in self.adts:
            return name
        c = [p for p in self.adts if p.endswith("::" + name)]
        if not c:
            raise Missing("type " + name)
        # prefer types that are reachable from outside
        return sorted(c, key=len)[0]

    def targs(self, i):
        return tuple(self.T[x]["s"] for x in self.F[i].get("a", []) if isinstance(x, int))

    def fn(self, path, *targs):
        """instance index by normalised path suffix (after `crate::`)"""
        c = []
        for p in (path, "crate::" + path):
            for i in self.idx.get(p, []):
                if not targs or self.targs(i)[:len(targs)] == targs:
                    c.append(i)
        if not c:
            for p, l in self.idx.items():
                if p.endswith("::" + path) and "{" not in p[len(p) - len(path):]:
                    for i in l:
                        if self.F[i].get("local") and (not targs or self.targs(i)[:len(targs)] == targs):
                            c.append(i)
        if not c:
            raise Missing("function %s%s" % (path, "<%s>" % ", ".join(targs) if targs else ""))
        return c[0]

    def has(self, path, *targs):
        try:
            self.fn(path, *targs)
            return True
        except Missing:
            return False

    def adtc(self, name):
        """candidate type paths for a (partial) name"""
        if name in self.adts:
            return [name]
        c = [p for p in self.adts if p.endswith("::" + name)]
        if not c:
            raise Missing("type " + name)
        return sorted(c, key=len)

    def adtm(self, name, trait="Matter"):
        """path of the local type called `name` that implements `trait`"""
        have = {im["self"] for im in self.facts["impls"] if (im.get("trait") or "").endswith("::" + trait)}
        for p in self.adtc(name):
            if p in have:
                return p
        raise Missing("%s implementing %s" % (name, trait))

    def method(self, ty, name):
        """method `name` of local type `ty` (path or last segment): inherent, trait impl, or trait default"""
        cands = self.adtc(ty)
        for p in cands:
            i = self.idx.get(p + "::" + name)
            if i:
                return i[0]
        for p in cands:
            for tr, inst in self.traitimpls.get((p, name), []):
                if inst is not None and "body" in self.F[inst]:
                    return inst
        for p in cands:
            for q, l in self.idx.items():
                if q.endswith("::" + name):
                    for j in l:
                        if self.targs(j)[:1] == (p,) and self.F[j].get("local"):
                            return j
        raise Missing("method %s::%s" % (ty, name))

    def trait_method(self, ty, trait, name):
        """method `name` of trait `trait` for `ty`, ignoring inherent methods of the same name"""
        for p in self.adtc(ty):
            for tr, inst in self.traitimpls.get((p, name), []):
                if tr and tr.rsplit("::", 1)[-1] == trait and inst is not None and "body" in self.F[inst]:
                    return inst
            for q, l in self.idx.items():
                if q.endswith("%s::%s" % (trait, name)):
                    for j in l:
                        if self.targs(j)[:1] == (p,):
                            return j
        raise Missing("method <%s as %s>::%s" % (ty, trait, name))

    def sig(self, i):
        b = self.F[i]["body"]
        return [self.T[t]["s"] for t in b["locals"][:b["argc"] + 1]]

    def loc(self, i):
        f = self.F[i]
        return "%s (%s)" % (f["p"], f.get("sp", "?"))

    def consts(self, module_suffix):
        """{name: str} string constants of a module (e.g. 'matter::tables::Codex')"""
        out = {}
        for c in self.facts["consts"]:
            p = c["path"]
            if "::" in p and p.rsplit("::", 1)[0].endswith(module_suffix):
                v = c["v"]
                if isinstance(v, dict) and "str" in v:
                    out[p.rsplit("::", 1)[1]] = v["str"]
                elif isinstance(v, dict) and "int" in v and v["int"] is not None:
                    out[p.rsplit("::", 1)[1]] = int(v["int"])
        return out

    def enum(self, name):
        return [v["n"] for v in self.adts[self.adt(name)]["vs"]]

    def run(self, **k):
        return Run(self, **k)


class Out:
    """outcome of an abstract call"""

    def __init__(self, run, v):
        self.run = run
        self.v = v

    @property
    def never(self):
        return self.v is NEVER

    def kind(self):
        """'panic' | 'ok' | 'err' | 'mixed' | '?'   (for Result-valued calls)"""
        v = self.v
        if v is NEVER:
            return "panic"
        if type(v) is Agg:
            return "ok" if v.v == 0 else "err"
        if type(v) is Alt:
            return "mixed"
        return "?"

    def okv(self):
        v = self.v
        if type(v) is Agg and v.v == 0:
            return v.f[0] if v.f else None
        if type(v) is Alt and 0 in v.a:
            return v.a[0][0]
        return None

    def errname(self):
        v = self.v
        e = v.f[0] if type(v) is Agg and v.v == 1 else v.a[1][0] if type(v) is Alt and 1 in v.a else None
        return self.run.errname(e)


class Path:
    """one path of a partitioned call: outcome, condition, memory, oracle trace, events"""
    now = []   # conditions of the paths being judged

    def __init__(self, run, out, pc, mem, trace, events, modelled):
        self.run, self.out, self.pc, self.mem, self.trace, self.events, self.ok = run, out, pc, mem, trace, events, modelled
        self.feasible = sat(pc, run.I.nz)

    def __enter__(self):
        self.saved = self.run.mem
        self.run.mem = self.mem
        Path.now.append(self.pc)
        return self

    def __exit__(self, *a):
        self.run.mem = self.saved
        Path.now.pop()

    def deep(self, v):
        with self:
            return self.run.deep(v)


class Run:
    """one abstract execution context"""

    def __init__(self, W, hooks=None, nz=(), ranges=None, budget=1_500_000, log=None, oracle=None):
        self.W = W
        self.I = Interp(W.facts, hooks=hooks, facts_nz=nz, ranges=ranges, budget=budget, log=log)
        self.I.oracle = oracle
        self.I.visited = W.visited
        if Interp.G is not None:
            Interp.G.nz |= {frozenset(x) for x in nz}
        self.mem = {}
        self.over = False

    def ref(self, v, ty=None):
        return self.I.alloc(self.mem, v, ty)

    def s(self, text):
        return self.ref(S(text))

    def deep(self, v):
        if v is NEVER:
            return v
        return self.I.deep(v, self.mem)

    def call(self, fi, *args):
        try:
            v = self.I.call(fi, list(args), self.mem)
        except Budget as e:
            self.over = True
            self.I.note("budget: %s" % e)
            v = top("budget")
        except RecursionError:
            self.over = True
            self.I.note("recursion")
            v = top("recursion")
        return Out(self, v)

    def new(self, ty, name, *args):
        return self.call(self.W.method(ty, name), *args)

    def get(self, objref, ty, name, *args):
        """call method `name` on the object behind objref; value with references resolved"""
        o = self.call(self.W.method(ty, name), objref, *args)
        if o.never:
            return NEVER
        return self.deep(o.v)

    def paths(self, fi, *args, cap=64):
        """trace partitioning: the same call analysed once per combination of decisions at its undecided
        branches instead of joining them; a list of Path and whether the enumeration is complete"""
        base = dict(self.mem)
        base.setdefault("#pc", ())
        out = []
        script = []
        complete = True
        I = self.I
        un0, allun = dict(I.unmodelled), I.unmodelled
        while True:
            self.mem = dict(base)
            I.script, I.choices, I.lastpc = script, [], base["#pc"]
            t0, e0 = len(I.trace), len(I.events)
            v0 = allun
            I.unmodelled = dict(un0)
            over0 = self.over
            o = self.call(fi, *args)
            pc = I.lastpc if o.never else self.mem.get("#pc", ())
            p = Path(self, o, pc, self.mem, I.trace[t0:], I.events[e0:], self.modelled())
            v0.update(I.unmodelled)
            I.unmodelled = v0
            ch = I.choices
            I.script = None
            if p.feasible is not False:
                out.append(p)
            if self.over and not over0:
                complete = False
            while ch and ch[-1][0] + 1 >= ch[-1][1]:
                ch.pop()
            if not ch:
                break
            script = [d for d, n in ch[:-1]] + [ch[-1][0] + 1]
            cap -= 1
            if cap <= 0:
                complete = False
                break
        self.mem = base
        return out, complete

    # ------------------------------------------------------------ precision
    def modelled(self):
        return not self.I.unmodelled and not self.over

    def events(self, kind):
        return [e for e in self.I.events if e.kind == kind]

    def feasible(self, pc):
        """True when the path condition is certainly satisfiable, False when contradictory, None unknown"""
        return sat(pc, self.I.nz)

    def real_panics(self):
        """panic events that certainly happen for some input"""
        out = []
        for e in self.events("panic"):
            if not self.modelled():
                continue
            if e.weight >= 1 or self.feasible(e.pc) is True:
                out.append(e)
        return out

    def err_witness(self, o, variant=1):
        """witness condition of a variant of a mixed outcome: (feasible, pc)"""
        v = o.v if isinstance(o, Out) else o
        if type(v) is Alt and v.c and variant in v.c and variant in v.a:
            pc = v.c[variant]
            return sat(pc, self.I.nz), pc
        return None, None

    def errname(self, e):
        e = self.deep(e) if e is not None else None
        n = 0
        while type(e) is Obj and e.k == "anyhow" and n < 4:
            e = e.f[0]
            n += 1
        if type(e) is Agg:
            try:
                names = self.W.enum("error::Error")
                return names[e.v]
            except Exception:
                return None
        return None


def show_pc(pc):
    if not pc:
        return "always"
    return " and ".join("%s = %s" % (show(c), v) for c, v in pc)


# ---------------------------------------------------------------- satisfiability of witness conditions
def sat(pc, nz=()):
    if pc is None:
        return None
    if not pc:
        return True
    seen = {}
    for c, v in pc:
        if inexact(c):
            return None
        if c in seen and not isinstance(v, tuple):
            if seen[c] != v and not isinstance(seen[c], tuple):
                return False
        seen.setdefault(c, v)
    conds = list(dict.fromkeys(pc))
    # group by shared atoms
    groups = []
    for c, v in conds:
        at = atoms(c)
        if at is None:
            return None
        g = [(c, v)]
        ga = set(at)
        keep = []
        for g2, a2 in groups:
            if a2 & ga:
                g += g2
                ga |= a2
            else:
                keep.append((g2, a2))
        groups = keep + [(g, ga)]
    res = True
    for g, ga in groups:
        r = sat_group(g, ga, nz)
        if r is False:
            return False
        if r is None:
            res = None
    return res


def atoms(v, d=0):
    """free variables of a condition: bit ids (int) and opaque terms"""
    out = set()
    if not _atoms(v, out, d):
        return None
    return out


_OPS = ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Not", "cast", "in", "anyof", "allof", "hexch", "prefix", "suffix")


def _atoms(v, out, d):
    if d > 20:
        return False
    t = type(v)
    if t in (int, str, float, bool, type(None)):
        return True
    if t in (Bits, Ch):
        for b in v.b:
            if b == -1:
                return False
            if b >= 2:
                out.add(b)
        return True
    if t is Sym:
        return _atoms_t(v.t, out, d + 1)
    if t in (Seq, Agg, Obj):
        for x in (v.e if t is Seq else v.f):
            if not _atoms(x, out, d + 1):
                return False
        return True
    if t is Chunk:
        out.add(("opaque", v.t))
        return True
    return False


def _atoms_t(t, out, d):
    if isinstance(t, V):
        return _atoms(t, out, d)
    if isinstance(t, tuple) and t and (t[0] in _OPS or t[0] in PREDS and len(t) == 2 and type(t[1]) in (Bits, Ch)):
        for x in t[1:]:
            if isinstance(x, str):
                continue
            if not (_atoms_t(x, out, d + 1) if isinstance(x, (tuple, V)) else True):
                return False
        return True
    out.add(("opaque", t))
    return True


def sat_group(g, ga, nz):
    if len(g) == 1:
        # a single undecided condition takes both values
        return True
    bits = [a for a in ga if isinstance(a, int)]
    if len(bits) == len(ga) and len(bits) <= 12:
        for m in range(1 << len(bits)):
            env = {b: (m >> i) & 1 for i, b in enumerate(bits)}
            if any(all(x in env and env[x] == 0 for x in gr) for gr in nz):
                continue
            ok = True
            for c, v in g:
                r = ev(c, env)
                if r is None:
                    return None
                if not match(r, v):
                    ok = False
                    break
            if ok:
                return True
        return False
    if len(ga) == 1:
        return interval(g, next(iter(ga)))
    if len(bits) == len(ga):
        return guess(g, bits, nz)
    return None


def forced(g):
    """bit values (and aliases) that conditions of the form bits = constant fix; None when they contradict each other"""
    env = {}
    todo = list(g)
    for c, v in todo:
        if isinstance(v, tuple):
            continue
        if type(c) in (Bits, Ch) and isinstance(v, int):
            x, y = c, v
        elif type(c) is Sym and isinstance(c.t, tuple) and len(c.t) == 3 and (c.t[0] == "Eq" and v == 1 or c.t[0] == "Ne" and v == 0):
            x, y = c.t[1], c.t[2]
        elif type(c) is Sym and isinstance(c.t, tuple) and len(c.t) == 3 and c.t[0] in ("prefix", "suffix") and v == 1 and \
                type(c.t[1]) is Seq and type(c.t[2]) is Seq and not c.t[1].chunked and not c.t[2].chunked and len(c.t[2].e) <= len(c.t[1].e):
            n = len(c.t[2].e)
            x, y = Seq(c.t[1].e[:n] if c.t[0] == "prefix" else c.t[1].e[len(c.t[1].e) - n:]), c.t[2]
        elif type(c) is Sym and isinstance(c.t, tuple) and c.t and (c.t[0] == "allof" and v == 1 or c.t[0] == "anyof" and v == 0):
            todo += [(z if isinstance(z, V) else Sym(z), v) for z in c.t[1:] if isinstance(z, (V, tuple))]
            continue
        elif type(c) is Sym and isinstance(c.t, tuple) and len(c.t) == 2 and c.t[0] == "Not" and v in (0, 1):
            z = c.t[1]
            todo.append((z if isinstance(z, V) else Sym(z), 1 - v))
            continue
        else:
            continue
        if not force(x, y, env):
            return None
    return env


def force(x, y, env):
    if type(x) is Seq and type(y) is Seq and not x.chunked and not y.chunked:
        return len(x.e) == len(y.e) and all(force(p, q, env) for p, q in zip(x.e, y.e))
    if type(x) not in (Bits, Ch):
        x, y = y, x
    if type(x) is Bits and isinstance(y, int) and y >= 0:
        b = tuple((y >> i) & 1 for i in range(len(x.b)))
        if y >> len(x.b):
            return False
    elif type(x) is Ch and isinstance(y, int):
        from domain import chbits
        b = chbits(y)
        if b is None:
            return False
    else:
        return True
    for p, q in zip(x.b, b):
        if p in (0, 1):
            if p != q:
                return False
        elif p >= 2 and env.setdefault(p, q) != q:
            return False
    return True


def guess(g, bits, nz):
    """a satisfying assignment among a few candidates (True), or None"""
    env0 = forced(g)
    if env0 is None:
        return False
    import random
    rnd = random.Random(7)
    free = [b for b in bits if b not in env0]
    for n in range(24):
        env = dict(env0)
        for i, b in enumerate(free):
            env[b] = 0 if n == 0 else 1 if n == 1 else rnd.randrange(2) if n < 14 else int(rnd.randrange(8) == 0) if n < 19 else int(rnd.randrange(8) != 0)
        if any(all(env.get(x) == 0 for x in gr) for gr in nz):
            continue
        rs = [(ev(c, env), v) for c, v in g]
        if any(r is None for r, v in rs):
            return None
        if all(match(r, v) for r, v in rs):
            return True
    return None


def match(r, v):
    if isinstance(v, tuple):
        if v[0] == "not":
            return r not in v[1]
        if v[0] == "or":
            return match(r, v[1]) or match(r, v[2])
        return False
    return r == v


def ev(v, env):
    t = type(v)
    if t is int:
        return v
    if t is Bits:
        n = 0
        for i, b in enumerate(v.b):
            n |= (b if b < 2 else env[b]) << i
        return n
    if t is Ch:
        n = 0
        for i, b in enumerate(v.b):
            n |= (b if b < 2 else env[b]) << i
        from domain import B64
        return ord(B64[n])
    if t is Sym:
        return evt(v.t, env)
    if t is Seq:
        out = []
        for x in v.e:
            y = ev(x, env)
            if y is None:
                return None
            out.append(y)
        return tuple(out)
    return None


def evt(t, env):
    if isinstance(t, V):
        return ev(t, env)
    if isinstance(t, int):
        return t
    if isinstance(t, tuple) and t:
        if t[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and len(t) == 3:
            a, b = evt(t[1], env), evt(t[2], env)
            if a is None or b is None:
                return None
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[t[0]])
        if t[0] == "Not":
            a = evt(t[1], env)
            return None if a is None else 1 - a
        if t[0] == "hexch":
            n = evt(t[1], env)
            return None if n is None else ord("0123456789abcdef"[n])
        if t[0] in ("anyof", "allof"):
            xs = [evt(x, env) for x in t[1:]]
            if any(x is None for x in xs):
                return None
            return int((any if t[0] == "anyof" else all)(xs))
        if t[0] == "in" and len(t) == 3:
            s, x = evt(t[1], env), evt(t[2], env)
            if s is None or x is None:
                return None
            return int(x in s)
        if t[0] in ("prefix", "suffix") and len(t) == 3:
            s, x = evt(t[1], env), evt(t[2], env)
            if not isinstance(s, tuple) or not isinstance(x, tuple):
                return None
            return int(len(x) <= len(s) and (s[:len(x)] if t[0] == "prefix" else s[len(s) - len(x):]) == x)
        if t[0] in PREDS and len(t) == 2:
            x = evt(t[1], env)
            return None if x is None else int(bool(PREDS[t[0]](x)))
    return None


def interval(g, atom):
    """conjunction of comparisons of one opaque integer term with constants"""
    lo, hi, ne = None, None, set()
    term = None
    for c, v in g:
        if type(c) is not Sym or isinstance(v, tuple):
            return None
        t = c.t
        if not (isinstance(t, tuple) and len(t) == 3 and t[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")):
            return None
        op, a, b = t
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if not isinstance(b, int):
            return None
        if isinstance(a, tuple) and len(a) == 3 and a[0] in ("Add", "Sub") and isinstance(a[2], int):
            b = b - a[2] if a[0] == "Add" else b + a[2]
            a = a[1]
        if term is None:
            term = a
        elif term != a:
            return None
        if v == 0:
            op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
        if op == "Eq":
            lo = b if lo is None else max(lo, b)
            hi = b if hi is None else min(hi, b)
        elif op == "Ne":
            ne.add(b)
        elif op in ("Lt", "Le"):
            x = b - 1 if op == "Lt" else b
            hi = x if hi is None else min(hi, x)
        else:
            x = b + 1 if op == "Gt" else b
            lo = x if lo is None else max(lo, x)
    if isinstance(term, tuple) and term and term[0] == "len":
        lo = 0 if lo is None else max(lo, 0)
    if lo is not None and hi is not None:
        if lo > hi:
            return False
        if hi - lo < 1000 and all(x in ne for x in range(lo, hi + 1)):
            return False
    return True
