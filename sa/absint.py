"""Interprocedural abstract interpreter over the MIR facts (no cesride code is executed).

A flow-sensitive forward data-flow analysis: one abstract state per program point, joined at control
flow merges (work list in weak topological order), callees analysed in the abstract context of the
call.  Loops whose exit test is decided by the abstract state are analysed iteration by iteration
(trace partitioning by iteration); all others by joining at the loop head with widening.
"""
import os
import re
import struct
import time
from fractions import Fraction

from domain import (Agg, Alt, Bits, Ch, Chunk, Clo, Discr, FI, FnV, It, MapV, Obj, OneOf, Rat, Ref,
                    S, Seq, Sym, UNIT, V, chbits, hexbits, ishex, is_top, join, leaves, mkbits, mkch, show, sstr,
                    tobits, top, B64, _bit_names)


class Never:
    def __repr__(self):
        return "NEVER"


NEVER = Never()


class Budget(Exception):
    pass


class Infeasible(Exception):
    """the decisions followed so far contradict each other"""


class Guide:
    """decisions to follow at the undecided forks of all the runs of one check item, and the condition they amount to"""

    def __init__(self, script, arity, sat):
        self.script, self.arity, self.sat = script, arity, sat
        self.choices = []
        self.pc = ()
        self.nz = set()
        self.off = False      # an earlier decision point came back with another number of alternatives

    def decide(self, n):
        i = len(self.choices)
        if i < len(self.arity) and self.arity[i] != n:
            self.off = True
        if i > 300:
            raise Budget("too many decisions on one path")
        d = self.script[i] if i < len(self.script) else 0
        if d >= n:
            self.off, d = True, 0
        self.choices.append((d, n))
        return d

    def add(self, f):
        if self.pc is None:
            return
        if f is None or f[0] == "pc" and f[1] is None:
            self.pc = None
            return
        new = tuple(x for x in (f[1] if f[0] == "pc" else (f,)) if x not in self.pc)
        if new:
            self.pc += new
            if self.sat(self.pc, self.nz) is False:
                raise Infeasible()


def join_pc(a, b):
    """a witness condition for the disjunction of two path conditions"""
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    ra, rb = a[n:], b[n:]
    if len(ra) == 1 and len(rb) == 1 and ra[0][0] == rb[0][0] and ra[0][1] != rb[0][1]:
        return a[:n]
    return a if len(a) <= len(b) else b


class Event:
    __slots__ = ("kind", "what", "args", "stack", "weight", "span", "fn", "pc")

    def __init__(self, kind, what, args, stack, weight, span, fn, pc=()):
        self.kind, self.what, self.args, self.stack, self.weight, self.span, self.fn = kind, what, args, stack, weight, span, fn
        self.pc = pc

    @property
    def certain(self):
        return self.weight >= 1

    def where(self):
        return "%s (%s)" % (self.fn, self.span)

    def __repr__(self):
        return "<%s %s at %s w=%s>" % (self.kind, self.what, self.where(), self.weight)


def norm_path(p, _c={}):
    r = _c.get(p)
    if r is not None:
        return r
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p[i] == "<" and not p.startswith("<impl", i):
            d = 0
            j = i
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            # drop the preceding '::'
            if "".join(out[-2:]) == "::":
                out = out[:-2]
                i = j + 1
                continue
            # leading <T as X>::
            out.append(p[i:j + 1])
            i = j + 1
            continue
        if p.startswith("<impl", i):
            d = 0
            j = i
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            out.append(p[i:j + 1])
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    r = "".join(out)
    _c[p] = r
    return r


def wto(blocks):
    """weak topological order: (order index per block, component head chain per block)"""
    n = len(blocks)
    succ = [b_succ(b) for b in blocks]
    order = []
    heads = [() for _ in range(n)]

    def sccs(nodes, entry):
        # Tarjan restricted to nodes; returns SCCs in topological order
        idx = {}
        low = {}
        st = []
        on = set()
        out = []
        cnt = [0]
        for root in entry:
            if root in idx:
                continue
            work = [(root, 0)]
            while work:
                v, pi = work.pop()
                if pi == 0:
                    idx[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    on.add(v)
                rec = False
                ss = [w for w in succ[v] if w in nodes]
                for k in range(pi, len(ss)):
                    w = ss[k]
                    if w not in idx:
                        work.append((v, k + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                for w in ss:
                    if w in on:
                        low[v] = min(low[v], low[w])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
        out.reverse()
        return out

    def rec(nodes, entry, chain):
        for c in sccs(nodes, entry):
            if len(c) == 1 and c[0] not in succ[c[0]]:
                heads[c[0]] = chain
                order.append(c[0])
                continue
            cs = set(c)
            # head: the entry into the component reached first
            h = None
            for e in entry:
                if e in cs:
                    h = e
                    break
            if h is None:
                for b in range(n):
                    if b in nodes and b not in cs:
                        for w in succ[b]:
                            if w in cs:
                                h = w
                                break
                    if h is not None:
                        break
            if h is None:
                h = min(cs)
            heads[h] = chain + (h,)
            order.append(h)
            rest = cs - {h}
            rec(rest, [w for w in succ[h] if w in rest] + sorted(rest), chain + (h,))

    import sys
    sys.setrecursionlimit(20000)
    reach = set()
    st = [0]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st.extend(succ[b])
    rec(reach, [0], ())
    pos = [None] * n
    for i, b in enumerate(order):
        pos[b] = i
    return pos, heads


def b_succ(b):
    t = b["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def struct_same(a, b, d=0):
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    if t in (Bits, Ch):
        return a.b == b.b
    if t is FI:
        return a.lo == b.lo and a.hi == b.hi
    if t is Discr:
        return a.place == b.place and a.ti == b.ti
    if t is Seq:
        return len(a.e) == len(b.e) and all(struct_same(x, y) for x, y in zip(a.e, b.e))
    if t is Chunk:
        return a.t == b.t and struct_same(a.e, b.e)
    if t is Agg:
        return a.v == b.v and len(a.f) == len(b.f) and all(struct_same(x, y) for x, y in zip(a.f, b.f))
    if t is Alt:
        return a.a.keys() == b.a.keys() and all(
            len(f) == len(b.a[k]) and all(struct_same(x, y) for x, y in zip(f, b.a[k])) for k, f in a.a.items())
    if t is Clo:
        return a.ty == b.ty and len(a.f) == len(b.f) and all(struct_same(x, y) for x, y in zip(a.f, b.f))
    if t is Obj:
        return a.k == b.k and len(a.f) == len(b.f) and all(struct_same(x, y) for x, y in zip(a.f, b.f))
    if t is It:
        return (len(a.items) == len(b.items) and (a.rest is None) == (b.rest is None)
                and all(struct_same(x, y) for x, y in zip(a.items, b.items)) and (a.rest is None or struct_same(a.rest, b.rest)))
    if t is MapV:
        return (len(a.items) == len(b.items) and a.open == b.open and (a.rest is None) == (b.rest is None)
                and all(struct_same(x, p) and struct_same(y, q) for (x, y), (p, q) in zip(a.items, b.items))
                and (a.rest is None or struct_same(a.rest, b.rest)))
    if t is OneOf:
        return len(a.vs) == len(b.vs) and (a.vs == b.vs)
    return a == b


TRACEFORK = bool(os.environ.get("SA_FORK"))


class Interp:
    G = None          # a Guide while a whole check item is re-analysed path by path
    MAXVISIT = 20000
    DEADLINE = None   # monotonic time after which every run gives up (undecided)
    PERRUN = 25.0     # seconds per run

    def __init__(self, facts, hooks=None, facts_nz=(), ranges=None, budget=3_000_000, log=None):
        import models
        import models_json
        import models_std
        self.facts = facts
        self.F = facts["fns"]
        self.T = facts["types"]
        if self.T and "ix" not in self.T[0]:
            for i, t in enumerate(self.T):
                t["ix"] = i
        self.models = models.MODELS
        self.hooks = hooks or {}
        self.clock = None       # what the clock shows, when the check fixes it
        self.oracle = None      # oracle(kind, ins) -> True | False | None, decides fallible external calls
        self.script = None      # decisions to follow at undecided forks (trace partitioning), None: join
        self.choices = []       # (decision taken, number of alternatives) in the scripted run
        self.lastpc = ()
        self.trace = []         # (kind, inputs) of the external calls met, in analysis order
        self.nz = [frozenset(x) for x in facts_nz]
        self.ranges = ranges or {}
        self.events = []
        self.unmodelled = {}
        self.stack = []
        self.nextf = 0
        self.nexth = 0
        self.constmem = {}
        self.constcache = {}
        self.statics = {}
        self.steps = 0
        self.budget = budget
        self.basety = {}
        self.logset = log or set()
        self.prep = facts.setdefault("_prep", {})
        self.memo = {}
        self.fresh = 0
        self.visited = set()
        self.undecided = []
        self.ticks = 0
        self.tend = None

    # ---------------------------------------------------------------- types
    def ty(self, i):
        return self.T[i]

    def tname(self, i):
        return self.T[i]["s"]

    # ---------------------------------------------------------------- memory
    def alloc(self, mem, v, ty=None):
        self.nexth += 1
        b = ("h", self.nexth)
        mem[b] = v
        if ty is not None:
            self.basety[b] = ty
        return Ref(b)

    def const_ref(self, v):
        try:
            k = ("cv", v)
            r = self.constcache.get(k)
        except TypeError:
            r = k = None
        if r is None:
            self.nexth += 1
            b = ("c", self.nexth)
            self.constmem[b] = v
            r = Ref(b)
            if k is not None:
                self.constcache[k] = r
        return r

    def sym_ref(self, mem, v, name=None):
        return self.alloc(mem, v)

    def rd_base(self, base, mem):
        v = mem.get(base)
        if v is None:
            v = self.constmem.get(base)
            if v is None:
                if base[0] == "s":
                    v = Sym(("*", base[1]))
                    mem[base] = v
                elif base[0] == "static":
                    v = self.static_value(base[1])
                else:
                    v = Sym(("top", frozenset(["uninit"])))
        return v

    def static_value(self, path):
        """initial value of an immutable static without interior mutability"""
        if path not in self.statics:
            v = Obj("static", path)
            for x in self.facts.get("statics", []):
                if x["path"] == path and x.get("v"):
                    y = self.cv(x["v"], x["t"])
                    v = y if y is not None else v
            self.statics[path] = v
        return self.statics[path]

    def read(self, base, path, mem):
        v = self.rd_base(base, mem)
        for s in path:
            v = self.proj(v, s)
        return v

    def proj(self, v, s):
        t = type(v)
        if type(s) is int:
            if t is Agg or t is Clo:
                if s < len(v.f):
                    return v.f[s]
                return top(v)
            if t is Ref:
                return v
            if t is Alt:
                r = None
                for f in v.a.values():
                    if s < len(f):
                        r = f[s] if r is None else join(r, f[s])
                return r if r is not None else top(v)
            if t is Sym:
                return v if is_top(v) else Sym(("f", s, v.t))
            if t is Seq or t is int or t is Bits or t is FnV:
                return v  # transparent wrappers (MaybeUninit, ManuallyDrop, Wrapping...)
            if t is OneOf:
                r = None
                for x in v.vs:
                    y = self.proj(x, s)
                    r = y if r is None else join(r, y)
                return r
            return top(v)
        k = s[0]
        if k == "d":
            if t is Agg:
                if v.v == s[1]:
                    return v
                return top("bottom")
            if t is Alt:
                if s[1] in v.a:
                    return Agg(s[1], v.a[s[1]])
                return top("bottom")
            if t is Sym:
                return v if is_top(v) else Sym(("d", s[1], v.t))
            if t is OneOf:
                return top(v)
            return v
        if k == "i":
            if t is Seq:
                i = s[1]
                if not v.chunked:
                    return v.e[i] if i < len(v.e) else top(v)
                for j, x in enumerate(v.e):
                    if type(x) is Chunk:
                        return self.seq_any(v)
                    if j == i:
                        return x
                return top(v)
            if t is Sym:
                return v if is_top(v) else Sym(("i", s[1], v.t))
            if t is OneOf:
                r = None
                for x in v.vs:
                    y = self.proj(x, s)
                    r = y if r is None else join(r, y)
                return r
            return top(v)
        if k == "u":
            if t is Seq:
                return self.seq_any(v)
            if t is Sym and not is_top(v):
                return Sym(("i", s[1] if len(s) > 1 else None, v.t))
            return top(v)
        if k == "r":
            if t is Seq:
                a, b = s[1], s[2]
                if v.chunked:
                    return self.slice_chunked(v, a, b)
                n = len(v.e)
                if isinstance(b, tuple):
                    b = n - b[1]
                if b is None:
                    b = n
                if a == 0 and b == n:
                    return v
                return Seq(v.e[a:b])
            if t is Sym:
                return v if is_top(v) else Sym(("slice", s[1], s[2], v.t))
            return top(v)
        if k == "k":  # map entry
            if t is MapV:
                for kk, vv in v.items:
                    if kk == s[1]:
                        return vv
                if v.rest is not None:
                    return v.rest
                return top(v)
            if t is Sym:
                return v if is_top(v) else Sym(("key", s[1], v.t))
            return top(v)
        if k == "e":
            if t is Seq and not v.chunked:
                return v.e[len(v.e) - s[1]]
            return top(v)
        return top(v)

    def slice_chunked(self, v, a, b):
        # slice of a rope; exact when the bounds fall before the first chunk, or a prefix is cut off
        e = v.e
        first = next(i for i, x in enumerate(e) if type(x) is Chunk)
        if isinstance(b, int) and b <= first:
            return Seq(e[a:b])
        if b is None and a <= first:
            return Seq(e[a:])
        return Seq((Chunk(("slice", a, b, v), self.seq_any(v)),))

    def seq_any(self, v):
        r = None
        for x in v.e:
            if type(x) is Chunk:
                x = x.e if x.e is not None else top(x)
            r = x if r is None else join(r, x)
        return r if r is not None else top(v)

    def write(self, base, path, val, mem):
        if not path:
            mem[base] = val
            return
        old = self.rd_base(base, mem)
        mem[base] = self.upd(old, path, 0, val, base)

    def upd(self, v, path, k, val, base):
        if k == len(path):
            return val
        s = path[k]
        t = type(v)
        if type(s) is int:
            if t is Agg:
                f = list(v.f)
                while len(f) <= s:
                    f.append(top("uninit"))
                f[s] = self.upd(f[s], path, k + 1, val, base)
                return Agg(v.v, tuple(f))
            if t is Clo:
                f = list(v.f)
                f[s] = self.upd(f[s], path, k + 1, val, base)
                return Clo(v.ty, tuple(f))
            if t is Sym:
                n = self.nfields(base, path[:k])
                if n is None or n <= s:
                    n = s + 1
                f = [v if is_top(v) else Sym(("f", j, v.t)) for j in range(n)]
                f[s] = self.upd(f[s], path, k + 1, val, base)
                return Agg(0, tuple(f))
            if t is Alt:
                f = {kk: list(ff) for kk, ff in v.a.items()}
                for kk, ff in f.items():
                    if s < len(ff):
                        ff[s] = join(ff[s], self.upd(ff[s], path, k + 1, val, base))
                return Alt({kk: tuple(ff) for kk, ff in f.items()})
            if t in (Seq, Ref, int):
                return self.upd(v, path, k + 1, val, base)
            return top(v, val)
        kind = s[0]
        if kind == "d":
            if t is Alt:
                if s[1] in v.a:
                    return self.upd(Agg(s[1], v.a[s[1]]), path, k + 1, val, base)
                return self.upd(Agg(s[1], ()), path, k + 1, val, base)
            if t is Agg and v.v != s[1]:
                return self.upd(Agg(s[1], ()), path, k + 1, val, base)
            if t is Sym:
                if k + 1 < len(path) and type(path[k + 1]) is int:
                    j = path[k + 1]
                    f = [v if is_top(v) else Sym(("f", q, ("d", s[1], v.t))) for q in range(j + 1)]
                    f[j] = self.upd(f[j], path, k + 2, val, base)
                    return Agg(s[1], tuple(f))
                return val
            return self.upd(v, path, k + 1, val, base)
        if kind == "i":
            if t is Seq:
                if v.chunked:
                    first = next(i for i, x in enumerate(v.e) if type(x) is Chunk)
                    if s[1] >= first:
                        e = list(v.e)
                        for j in range(first, len(e)):
                            x = e[j]
                            if type(x) is Chunk:
                                nv = val if k + 1 == len(path) else self.upd(x.e if x.e is not None else top(x), path, k + 1, val, base)
                                e[j] = Chunk(("top", frozenset(leaves(v) | leaves(nv))), nv if x.e is None else join(x.e, nv))
                            else:
                                e[j] = join(x, self.upd(x, path, k + 1, val, base))
                        return Seq(tuple(e))
                e = v.e
                i = s[1]
                if i >= len(e):
                    return v
                return Seq(e[:i] + (self.upd(e[i], path, k + 1, val, base),) + e[i + 1:])
            if t is Sym:
                return top(v, val)
            return top(v, val)
        if kind == "u":
            if t is Seq:
                out = []
                for x in v.e:
                    if type(x) is Chunk:
                        y = x.e if x.e is not None else top(x)
                        out.append(Chunk(("top", frozenset(leaves(x) | leaves(val))), join(y, self.upd(y, path, k + 1, val, base))))
                    else:
                        out.append(join(x, self.upd(x, path, k + 1, val, base)))
                return Seq(tuple(out))
            return top(v, val)
        if kind == "r":
            if t is Seq and not v.chunked:
                a, b = s[1], s[2]
                n = len(v.e)
                if isinstance(b, tuple):
                    b = n - b[1]
                if b is None:
                    b = n
                sub = self.upd(Seq(v.e[a:b]), path, k + 1, val, base)
                if type(sub) is Seq and not sub.chunked:
                    return Seq(v.e[:a] + sub.e + v.e[b:])
                return Seq((Chunk(("top", frozenset(leaves(v) | leaves(sub))), None),))
            return top(v, val)
        if kind == "k":
            if t is MapV:
                out = []
                hit = False
                for kk, vv in v.items:
                    if kk == s[1]:
                        vv = self.upd(vv, path, k + 1, val, base)
                        hit = True
                    out.append((kk, vv))
                if not hit:
                    out.append((s[1], self.upd(top(v), path, k + 1, val, base)))
                return MapV(out, v.open, v.rest)
            return top(v, val)
        if kind == "e":
            if t is Seq and not v.chunked:
                i = len(v.e) - s[1]
                return Seq(v.e[:i] + (self.upd(v.e[i], path, k + 1, val, base),) + v.e[i + 1:])
        return top(v, val)

    def nfields(self, base, path):
        ti = None
        if base in self.basety:
            ti = self.basety[base]
        elif isinstance(base[0], int):
            fn = self.frames.get(base[0])
            if fn is not None:
                ti = fn["body"]["locals"][base[1]]
        if ti is None:
            return None
        var = 0
        for s in path:
            t = self.T[ti]
            if type(s) is int:
                if t["k"] == "adt" and t["vs"]:
                    fs = t["vs"][var]["f"]
                    if s >= len(fs) or fs[s]["t"] is None:
                        return None
                    ti = fs[s]["t"]
                elif t["k"] == "tuple":
                    ti = t["ts"][s]
                else:
                    return None
                var = 0
            elif s[0] == "d":
                var = s[1]
            elif s[0] in ("i", "u", "e") and t["k"] in ("array", "slice"):
                ti = t["t"]
            else:
                return None
        t = self.T[ti]
        if t["k"] == "adt" and t["vs"]:
            return len(t["vs"][var]["f"])
        if t["k"] == "tuple":
            return len(t["ts"])
        return None

    def deref(self, v, mem):
        """place denoted by a pointer value"""
        t = type(v)
        if t is Ref:
            return v.b, v.p
        if t is OneOf:
            r = None
            for x in v.vs:
                y = self.load(x, mem)
                r = y if r is None else join(r, y)
            return self.alloc(mem, r).b, ()
        if t is Sym:
            if is_top(v):
                return self.alloc(mem, v).b, ()
            return ("s", v.t), ()
        if t is Agg and len(v.f) >= 1:  # a pointer wrapper
            return self.deref(v.f[0], mem)
        # value stands for itself
        return self.alloc(mem, v).b, ()

    def load(self, v, mem):
        """value behind a pointer (one level)"""
        if type(v) is Ref:
            return self.read(v.b, v.p, mem)
        b, p = self.deref(v, mem)
        return self.read(b, p, mem)

    def full(self, v, mem):
        """value behind any number of references"""
        n = 0
        while (type(v) is Ref or (type(v) is OneOf and all(type(x) is Ref for x in v.vs))) and n < 10:
            v = self.load(v, mem)
            n += 1
        return v

    def store(self, ref, val, mem):
        if type(ref) is Ref:
            self.write(ref.b, ref.p, val, mem)
        elif type(ref) is OneOf:
            for r in ref.vs:
                if type(r) is Ref:
                    self.write(r.b, r.p, join(self.load(r, mem), val), mem)
        elif type(ref) is Sym and not is_top(ref):
            mem[("s", ref.t)] = val
        else:
            self.note("write through unknown pointer")

    def deep(self, v, mem, d=0):
        """replace references by what they point to (for reporting and checking)"""
        if d > 8:
            return v
        t = type(v)
        if t is Ref:
            return self.deep(self.load(v, mem), mem, d + 1)
        if t is Agg:
            return Agg(v.v, tuple(self.deep(x, mem, d + 1) for x in v.f))
        if t is Alt:
            return Alt({k: tuple(self.deep(x, mem, d + 1) for x in f) for k, f in v.a.items()}, v.c)
        if t is Seq:
            if any(type(x) in (Ref, Agg, Alt, OneOf) for x in v.e):
                return Seq(tuple(self.deep(x, mem, d + 1) for x in v.e))
            return v
        if t is OneOf:
            r = None
            if all(type(x) is Ref for x in v.vs):
                for x in v.vs:
                    y = self.deep(x, mem, d + 1)
                    r = y if r is None else join(r, y)
                return r
            return v
        if t is MapV:
            return MapV(tuple((k, self.deep(x, mem, d + 1)) for k, x in v.items), v.open,
                        None if v.rest is None else self.deep(v.rest, mem, d + 1))
        if t is It:
            return It(tuple(self.deep(x, mem, d + 1) for x in v.items), None if v.rest is None else self.deep(v.rest, mem, d + 1))
        if t is Clo:
            return Clo(v.ty, tuple(self.deep(x, mem, d + 1) for x in v.f))
        if t is Obj:
            return Obj(v.k, *[self.deep(x, mem, d + 1) for x in v.f])
        return v

    # ---------------------------------------------------------------- events
    def cur(self):
        return self.stack[-1] if self.stack else ("?", "?")

    def note(self, what):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def event(self, kind, what, args, mem):
        fn, sp = self.cur()
        self.events.append(Event(kind, what, args, tuple(self.stack), mem.get("#w", Fraction(1)), sp, fn, mem.get("#pc", ())))

    drops = None   # set to a list to record the value of every place that is dropped

    def stackdrops(self, fn, fid, mem):
        """named byte arrays of a returning function that are written through a mutable borrow (buffers, not moved values)"""
        b = fn["body"]
        if "_mutref" not in b:
            b["_mutref"] = {st[2][1][0] for bb in b["blocks"] for st in bb["s"] if st[0] == "=" and st[2][0] == "ref" and st[2][2]}
        for name, place in b.get("names", ()):
            if isinstance(place, list) and len(place) == 1 and isinstance(place[0], int) and place[0] > b["argc"] and place[0] in b["_mutref"]:
                if re.match(r"^\[u8; ", self.T[b["locals"][place[0]]]["s"]):
                    v = mem.get((fid, place[0]))
                    if v is not None:
                        self.drops.append((fn["p"], ("stack", name, self.T[b["locals"][0]]["s"]), (v, mem.get((fid, 0))), mem.get("#pc", ())))

    def ext(self, kind, *ins):
        """an external (dependency) operation; the decision of the oracle on whether it succeeds"""
        self.trace.append((kind, ins))
        return self.oracle(kind, ins) if self.oracle else None

    def panic(self, what, mem):
        self.event("panic", what, (), mem)
        return NEVER

    def maypanic(self, what, mem):
        fn, sp = self.cur()
        self.events.append(Event("maypanic", what, (), tuple(self.stack), Fraction(0), sp, fn, mem.get("#pc", ())))

    # ---------------------------------------------------------------- scalars
    def nzmin(self, b):
        m = 0
        pos = {x: i for i, x in enumerate(b) if x >= 2}
        for i, x in enumerate(b):
            if x == 1:
                m |= 1 << i
        best = 0
        for g in self.nz:
            if all(x in pos for x in g):
                best = max(best, 1 << min(pos[x] for x in g))
        # a group adds at least its lowest weight
        if best and m & best == 0:
            m += best
        elif best and m == 0:
            m = best
        return m

    def rng(self, v, ti=None):
        """(lo, hi) of a scalar, or None"""
        t = type(v)
        if t is int:
            return v, v
        if t is Bits:
            signed = ti is not None and self.T[ti]["k"] == "int"
            b = v.b
            if signed and b[-1] != 0 and len(b) >= self.T[ti].get("bits", 64):
                return -(1 << (len(b) - 1)), (1 << (len(b) - 1)) - 1
            hi = 0
            for i, x in enumerate(b):
                if x != 0:
                    hi |= 1 << i
            return self.nzmin(b), hi
        if t is Ch:
            return 45, 122
        if t is OneOf:
            rs = [self.rng(x, ti) for x in v.vs]
            if any(r is None for r in rs):
                return None
            return min(r[0] for r in rs), max(r[1] for r in rs)
        if t is Sym:
            if isinstance(v.t, tuple) and v.t and v.t[0] == "hexch":
                return 48, 102
            r = self.ranges.get(v.t)
            if r is None and not is_top(v) and isinstance(v.t, tuple):
                r = self.term_rng(v.t)
            if r is not None:
                return r
        if ti is not None:
            ty = self.T[ti]
            if ty["k"] == "uint":
                return 0, (1 << ty["bits"]) - 1
            if ty["k"] == "int":
                return -(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1
            if ty["k"] == "bool":
                return 0, 1
            if ty["k"] == "char":
                return 0, 0x10FFFF
        return None

    def term_rng(self, t, d=0):
        if d > 8:
            return None
        if isinstance(t, V):
            if type(t) is int:
                return t, t
            if type(t) is Sym:
                return self.ranges.get(t.t) or (self.term_rng(t.t, d + 1) if isinstance(t.t, tuple) and not is_top(t) else None)
            return self.rng(t)
        if isinstance(t, int):
            return t, t
        if isinstance(t, tuple) and len(t) == 3 and t[0] in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd"):
            a, b = self.term_rng(t[1], d + 1), self.term_rng(t[2], d + 1)
            if t[0] == "Rem" and b and b[0] == b[1] and b[0] > 0:
                return 0, b[0] - 1
            if t[0] == "BitAnd":
                if b and b[0] >= 0:
                    return 0, b[1]
                return None
            if not a or not b:
                return None
            if t[0] == "Add":
                return a[0] + b[0], a[1] + b[1]
            if t[0] == "Sub":
                return a[0] - b[1], a[1] - b[0]
            if t[0] == "Mul" and a[0] >= 0 and b[0] >= 0:
                return a[0] * b[0], a[1] * b[1]
            if t[0] == "Div" and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
                return a[0] // b[0], a[1] // b[0]
        if isinstance(t, tuple) and t and t[0] == "len":
            return 0, (1 << 62)
        return None

    def binop(self, op, a, b, ti):
        """-> (value, overflow) with overflow in 0/1/None(unknown)"""
        ty = self.T[ti]
        k = ty["k"]
        if type(a) is Discr:
            a = a.val
        if type(b) is Discr:
            b = b.val
        if k == "float" or type(a) in (float, FI) or type(b) in (float, FI):
            return self.fbin(op, a, b, ty), 0
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.cmp(op, a, b, ti), 0
        if op == "Cmp":
            l, e = self.cmp("Lt", a, b, ti), self.cmp("Eq", a, b, ti)
            if l == 1:
                return Agg(0, ()), 0
            if e == 1:
                return Agg(1, ()), 0
            if l == 0 and e == 0:
                return Agg(2, ()), 0
            alts = {}
            if l != 0:
                alts[0] = ()
            if e != 0:
                alts[1] = ()
            if self.cmp("Gt", a, b, ti) != 0:
                alts[2] = ()
            if len(alts) == 1:
                return Agg(next(iter(alts)), ()), 0
            return Alt(alts), 0
        w = ty.get("bits", 1 if k == "bool" else 32 if k == "char" else 64)
        signed = k == "int"
        if type(a) is int and type(b) is int:
            return self.cbin(op, a, b, w, signed)
        if type(a) is OneOf or type(b) is OneOf:
            av = a.vs if type(a) is OneOf else [a]
            bv = b.vs if type(b) is OneOf else [b]
            if len(av) * len(bv) <= 64:
                r = None
                of = None
                for x in av:
                    for y in bv:
                        v, o = self.binop(op, x, y, ti)
                        r = v if r is None else join(r, v)
                        of = o if of is None else (of if of == o else -1)
                return r, (None if of == -1 else of)
        ab, bb = tobits(a, w), tobits(b, w)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if ab is not None and bb is not None and type(a) is not Ch and type(b) is not Ch:
            if base == "BitAnd":
                return mkbits(tuple(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 else x if x == y else -1 for x, y in zip(ab, bb))), 0
            if base == "BitOr":
                return mkbits(tuple(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 else x if x == y else -1 for x, y in zip(ab, bb))), 0
            if base == "BitXor":
                return mkbits(tuple(y if x == 0 else x if y == 0 else (0 if x == y and x >= 0 else -1) for x, y in zip(ab, bb))), 0
            if base == "Shl" and type(b) is int:
                if b < w and b >= 0:
                    return mkbits((0,) * b + ab[:w - b]), 0
                return top(a, b), 1
            if base == "Shr" and type(b) is int:
                if b < w and b >= 0:
                    fill = 0 if not signed else ab[-1]
                    return mkbits(ab[b:] + (fill,) * b), 0
                return top(a, b), 1
            ra, rb = self.rng(a, ti), self.rng(b, ti)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if base == "Add":
                of = self._of(ra[0] + rb[0], ra[1] + rb[1], lo, hi)
                return self.addbits(ab, bb), of
            if base == "Sub":
                of = self._of(ra[0] - rb[1], ra[1] - rb[0], lo, hi)
                if type(b) is int and b == 0:
                    return a, of
                if a == b and type(a) is Bits:
                    return 0, 0
                r = self.subbits(ab, bb)
                return r, of
            if base == "Mul":
                of = self._of(ra[0] * rb[0], ra[1] * rb[1], lo, hi) if ra[0] >= 0 and rb[0] >= 0 else None
                for x, y in ((a, bb), (b, ab)):
                    if type(x) is int:
                        if x == 0:
                            return 0, of
                        if x > 0 and x & (x - 1) == 0:
                            s = x.bit_length() - 1
                            return mkbits((0,) * s + y[:w - s]), of
                        if x > 0:
                            acc = (0,) * w
                            sh = 0
                            xx = x
                            while xx:
                                if xx & 1:
                                    acc = tobits(self.addbits(acc, ((0,) * sh + y)[:w]), w)
                                xx >>= 1
                                sh += 1
                            return mkbits(acc), of
                return self.hbits(ra[1] * rb[1], w), of
            if base == "Div" and type(b) is int and b > 0 and (not signed or ab[-1] == 0):
                if b & (b - 1) == 0:
                    s = b.bit_length() - 1
                    return mkbits(ab[s:] + (0,) * s), 0
                return self.hbits(ra[1] // b, w), 0
            if base == "Rem" and type(b) is int and b > 0 and (not signed or ab[-1] == 0):
                if b & (b - 1) == 0:
                    s = b.bit_length() - 1
                    return mkbits(ab[:s] + (0,) * (w - s)), 0
                return self.hbits(min(b - 1, ra[1]), w), 0
        # symbolic terms
        if k == "bool":
            if base == "BitAnd":
                if a == 0 or b == 0:
                    return 0, 0
                if a == 1:
                    return b, 0
                if b == 1:
                    return a, 0
            if base == "BitOr":
                if a == 1 or b == 1:
                    return 1, 0
                if a == 0:
                    return b, 0
                if b == 0:
                    return a, 0
        of = None
        ra, rb = self.rng(a, ti), self.rng(b, ti)
        if ra and rb and base in ("Add", "Sub", "Mul"):
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if base == "Add":
                of = self._of(ra[0] + rb[0], ra[1] + rb[1], lo, hi)
            elif base == "Sub":
                of = self._of(ra[0] - rb[1], ra[1] - rb[0], lo, hi)
            elif ra[0] >= 0 and rb[0] >= 0:
                of = self._of(ra[0] * rb[0], ra[1] * rb[1], lo, hi)
        if base in ("Add",) and (a == 0 or b == 0):
            return (b if a == 0 else a), 0
        if base == "Sub" and b == 0:
            return a, 0
        if base == "Mul" and (a == 1 or b == 1):
            return (b if a == 1 else a), 0
        if is_top(a) or is_top(b) or type(a) not in (int, Sym, Bits, Ch) or type(b) not in (int, Sym, Bits, Ch):
            return top(a, b), of
        if type(a) is Sym and type(b) is int and base in ("Add", "Sub") and isinstance(a.t, tuple) and len(a.t) == 3 and a.t[0] in ("Add", "Sub") and isinstance(a.t[2], int):
            c0 = a.t[2] if a.t[0] == "Add" else -a.t[2]
            c1 = c0 + (b if base == "Add" else -b)
            if c1 == 0:
                return (a.t[1] if isinstance(a.t[1], V) else Sym(a.t[1])), of
            return Sym(("Add", a.t[1], c1) if c1 > 0 else ("Sub", a.t[1], -c1)), of
        x, y = self.tm(a), self.tm(b)
        if base in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and isinstance(x, int) and not isinstance(y, int):
            x, y = y, x
        return Sym((base, x, y)), of

    def tm(self, v):
        return v.t if type(v) is Sym else v

    def _of(self, lo, hi, mn, mx):
        if lo >= mn and hi <= mx:
            return 0
        if hi < mn or lo > mx:
            return 1
        return None

    def hbits(self, hi, w):
        n = max(hi, 0).bit_length()
        if n == 0:
            return 0
        return mkbits((-1,) * min(n, w) + (0,) * (w - min(n, w)))

    def addbits(self, a, b):
        out = []
        c = 0
        for x, y in zip(a, b):
            vals = [x, y, c]
            known = sum(1 for v in vals if v == 1)
            zeros = sum(1 for v in vals if v == 0)
            unk = [v for v in vals if v not in (0, 1)]
            if not unk:
                out.append(known & 1)
                c = known >> 1
            elif len(unk) == 1:
                if known == 0:
                    out.append(unk[0])
                    c = 0
                elif known == 2:
                    out.append(unk[0])
                    c = 1
                else:
                    out.append(-1)
                    c = -1 if unk[0] == -1 else unk[0]
            else:
                out.append(-1)
                c = -1
        return mkbits(tuple(out))

    def subbits(self, a, b):
        out = []
        br = 0
        for x, y in zip(a, b):
            if br == 0 and y == 0:
                out.append(x)
            elif br == 0 and x == y and x >= 0:
                out.append(0)
            elif br in (0, 1) and x in (0, 1) and y in (0, 1):
                d = x - y - br
                out.append(d & 1)
                br = 1 if d < 0 else 0
            elif br == 0 and x == 1:
                out.append(-1)
                br = 0
            else:
                out.append(-1)
                br = -1
        return mkbits(tuple(out))

    def cbin(self, op, a, b, w, signed):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        mask = (1 << w) - 1

        def wrap(x):
            y = x & mask
            if signed and y >> (w - 1):
                y -= 1 << w
            return y
        if base == "Add":
            r = a + b
        elif base == "Sub":
            r = a - b
        elif base == "Mul":
            r = a * b
        elif base == "Div":
            if b == 0:
                return top("div0"), 1
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif base == "Rem":
            if b == 0:
                return top("div0"), 1
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        elif base == "BitAnd":
            r = a & b
        elif base == "BitOr":
            r = a | b
        elif base == "BitXor":
            r = a ^ b
        elif base == "Shl":
            if b < 0 or b >= w:
                return wrap(a << (b % w)), 1
            return wrap(a << b), 0
        elif base == "Shr":
            if b < 0 or b >= w:
                return wrap(a >> (b % w)), 1
            return wrap(a >> b), 0
        else:
            return top("op " + op), None
        v = wrap(r)
        return v, (1 if v != r else 0)

    def cmp(self, op, a, b, ti):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        if ta is OneOf or tb is OneOf:
            av = a.vs if ta is OneOf else [a]
            bv = b.vs if tb is OneOf else [b]
            r = None
            for x in av:
                for y in bv:
                    v = self.cmp(op, x, y, ti)
                    if type(v) is not int:
                        return top(a, b)
                    r = v if r is None else (r if r == v else -1)
            return top(a, b) if r == -1 else r
        if ta is Ref and tb is Ref:
            if op in ("Eq", "Ne"):
                if a == b:
                    return int(op == "Eq")
            return top(a, b)
        if op in ("Eq", "Ne"):
            e = self.eq(a, b, ti)
            if e is None:
                return self.cterm(op, a, b)
            return int(e == (op == "Eq"))
        ra, rb = self.rng(a, ti), self.rng(b, ti)
        if ra and rb:
            if op == "Lt":
                if ra[1] < rb[0]:
                    return 1
                if ra[0] >= rb[1]:
                    return 0
            if op == "Le":
                if ra[1] <= rb[0]:
                    return 1
                if ra[0] > rb[1]:
                    return 0
            if op == "Gt":
                if ra[0] > rb[1]:
                    return 1
                if ra[1] <= rb[0]:
                    return 0
            if op == "Ge":
                if ra[0] >= rb[1]:
                    return 1
                if ra[1] < rb[0]:
                    return 0
        if a == b and ta in (Sym, Bits) and not is_top(a):
            return int(op in ("Le", "Ge"))
        return self.cterm(op, a, b)

    def cterm(self, op, a, b):
        if is_top(a) or is_top(b):
            return top(a, b)
        if type(a) in (int, Sym, Bits, Ch) and type(b) in (int, Sym, Bits, Ch):
            t = (op, self.tm(a), self.tm(b))
            r = self.ranges.get(t)
            if r is not None and r[0] == r[1]:
                return r[0]
            return Sym(t)
        return top(a, b)

    def eq(self, a, b, ti=None):
        """definite equality of scalars: True/False/None"""
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            return a == b
        if ishex(a) or ishex(b):
            x, y = hexbits(a), hexbits(b)
            if x is None or y is None:
                return False if (ta is int and x is None) or (tb is int and y is None) else None
            if x == y and -1 not in x:
                return True
            if any((p, q) in ((0, 1), (1, 0)) for p, q in zip(x, y)):
                return False
            return None
        if ta is Ch or tb is Ch:
            x, y = chbits(a), chbits(b)
            if x is None or y is None:
                if (ta is int and x is None) or (tb is int and y is None):
                    return False
                return None
            if x == y and -1 not in x:
                return True
            if any((p, q) in ((0, 1), (1, 0)) for p, q in zip(x, y)):
                return False
            return self.nzneq(x, y)
        if ta in (Bits, int) and tb in (Bits, int):
            w = max(len(a.b) if ta is Bits else 0, len(b.b) if tb is Bits else 0)
            x, y = tobits(a, w), tobits(b, w)
            if x == y and -1 not in x:
                return True
            if any((p, q) in ((0, 1), (1, 0)) for p, q in zip(x, y)):
                return False
            return self.nzneq(x, y)
        if ta is Sym and a == b and not is_top(a):
            return True
        ra, rb = self.rng(a, ti), self.rng(b, ti)
        if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
            return False
        return None

    def nzneq(self, x, y):
        for p, q in ((x, y), (y, x)):
            zs = {p[i] for i in range(len(p)) if q[i] == 0}
            for g in self.nz:
                if g <= zs:
                    return False
        return None

    def fbin(self, op, a, b, ty):
        import math
        f32 = ty["s"] == "f32"

        def rd(x):
            if f32 and not math.isinf(x) and not math.isnan(x):
                return struct.unpack("f", struct.pack("f", x))[0]
            return x

        def iv(x):
            if isinstance(x, (float, int)):
                return float(x), float(x)
            if type(x) is FI:
                return x.lo, x.hi
            return None
        x, y = iv(a), iv(b)
        if x is None or y is None:
            return top(a, b)
        try:
            if op == "Add":
                r = rd(x[0] + y[0]), rd(x[1] + y[1])
            elif op == "Sub":
                r = rd(x[0] - y[1]), rd(x[1] - y[0])
            elif op == "Mul":
                c = [rd(p * q) for p in x for q in y]
                r = min(c), max(c)
            elif op == "Div":
                if y[0] <= 0 <= y[1]:
                    return top(a, b)
                c = [rd(p / q) for p in x for q in y]
                r = min(c), max(c)
            elif op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                if op == "Lt":
                    return 1 if x[1] < y[0] else 0 if x[0] >= y[1] else top(a, b)
                if op == "Le":
                    return 1 if x[1] <= y[0] else 0 if x[0] > y[1] else top(a, b)
                if op == "Gt":
                    return 1 if x[0] > y[1] else 0 if x[1] <= y[0] else top(a, b)
                if op == "Ge":
                    return 1 if x[0] >= y[1] else 0 if x[1] < y[0] else top(a, b)
                e = 1 if x[0] == x[1] == y[0] == y[1] else 0 if x[1] < y[0] or y[1] < x[0] else None
                if e is None:
                    return top(a, b)
                return e if op == "Eq" else 1 - e
            else:
                return top(a, b)
        except OverflowError:
            return top(a, b)
        if r[0] == r[1]:
            return r[0]
        return FI(r[0], r[1])

    def cast_int(self, v, ti, fi):
        to, fr = self.T[ti], self.T[fi]
        t = type(v)
        if t is Discr:
            v = v.val
            t = type(v)
        w = to.get("bits", 1 if to["k"] == "bool" else 32)
        signed = to["k"] == "int"
        if t is int:
            y = v & ((1 << w) - 1)
            if signed and y >> (w - 1):
                y -= 1 << w
            return y
        if t is Ch:
            return v
        if t is Bits:
            b = v.b
            if len(b) >= w:
                return mkbits(b[:w])
            fill = b[-1] if fr["k"] == "int" and len(b) >= fr.get("bits", 64) else 0
            return mkbits(b + (fill,) * (w - len(b)))
        if t is OneOf:
            r = None
            for x in v.vs:
                y = self.cast_int(x, ti, fi)
                r = y if r is None else join(r, y)
            return r
        if t is Sym:
            if is_top(v):
                return v
            fw = fr.get("bits", 1 if fr["k"] == "bool" else 32)
            if w > fw and fr["k"] != "int":
                return v
            if w >= fw and signed == (fr["k"] == "int"):
                return v
            r = self.rng(v)
            if r:
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                if r[0] >= lo and r[1] <= hi:
                    return v
            return Sym(("cast", to["s"], v.t))
        if t is Agg:  # C-like enum
            if fr["k"] == "adt":
                return int(fr["vs"][v.v]["d"])
        if t is Alt and fr["k"] == "adt":
            r = None
            for k in v.a:
                y = int(fr["vs"][k]["d"])
                r = y if r is None else join(r, y)
            return r
        return top(v)

    def to_float(self, v, ti, fi):
        import math
        f32 = self.T[ti]["s"] == "f32"

        def rd(x):
            x = float(x)
            if f32:
                return struct.unpack("f", struct.pack("f", x))[0]
            return x
        r = self.rng(v, fi)
        if r is None:
            return top(v)
        if r[0] == r[1]:
            return rd(r[0])
        return FI(rd(r[0]), rd(r[1]))

    # ---------------------------------------------------------------- operands
    def const(self, c, mem):
        key = id(c)
        r = self.constcache.get(key)
        if r is None:
            r = self.cv(c["v"], c["c"])
            self.constcache[key] = r
        return r

    def cv(self, v, ti):
        ty = self.T[ti]
        k = ty["k"]
        if v is None:
            if k == "fndef":
                return FnV(ty["callee"])
            if k == "closure":
                return Clo(ti, ())
            return Sym(("const", ty["s"]))
        if "int" in v:
            if v["int"] is None:
                return Sym(("const", ty["s"]))
            x = int(v["int"])
            if k == "float":
                if ty["s"] == "f32":
                    return struct.unpack("<f", struct.pack("<I", x))[0]
                return struct.unpack("<d", struct.pack("<Q", x & (2**64 - 1)))[0]
            return x
        if "str" in v:
            return self.const_ref(S(v["str"]))
        if "slice" in v:
            et = self.T[ty["t"]]["t"]
            return self.const_ref(Seq(tuple(self.cv(x, et) for x in v["slice"])))
        if "ref" in v:
            return self.const_ref(self.cv(v["ref"], ty["t"]))
        if "static" in v:
            return Ref(("static", v["static"]))
        if "fnptr" in v:
            return FnV({"p": self.F[v["fnptr"]]["p"], "i": v["fnptr"], "a": []})
        if "agg" in v:
            if k == "array":
                return Seq(tuple(self.cv(x, ty["t"]) for x in v["agg"]))
            if k == "tuple":
                return Agg(0, tuple(self.cv(x, t) for x, t in zip(v["agg"], ty["ts"])))
            return Agg(0, ())
        if "adt" in v:
            p = ty.get("path", "")
            if p in ("alloc::string::String", "alloc::vec::Vec"):
                return Seq(())
            fs = ty["vs"][v["adt"]]["f"]
            return Agg(v["adt"], tuple(self.cv(x, f["t"]) if f["t"] is not None else Sym(("const", p)) for x, f in zip(v["f"], fs)))
        if "zst" in v:
            if k == "fndef":
                return FnV(ty["callee"])
            return Clo(ti, ())
        return Sym(("const", ty["s"]))

    def place(self, p, fid, mem):
        base = (fid, p[0])
        path = ()
        for e in p[1:]:
            if e == "*":
                v = self.read(base, path, mem)
                if type(v) is Ref:
                    base, path = v.b, v.p
                else:
                    base, path = self.deref(v, mem)
            elif e == "o":
                continue
            elif e == "?":
                path = path + (("u",),)
            else:
                k = e[0]
                if k == "f":
                    path = path + (e[1],)
                elif k == "d":
                    path = path + (("d", e[1]),)
                elif k == "i":
                    i = self.read((fid, e[1]), (), mem)
                    if type(i) is int:
                        path = self.addidx(path, i)
                    else:
                        path = path + (("u", i),)
                elif k == "ci":
                    if e[2]:
                        path = path + (("e", e[1]),)
                    else:
                        path = self.addidx(path, e[1])
                elif k == "ss":
                    path = self.addrange(path, e[1], ("e", e[2]) if e[3] else e[2])
        return base, path

    def addidx(self, path, i):
        if path and type(path[-1]) is tuple and path[-1][0] == "r":
            return path[:-1] + (("i", path[-1][1] + i),)
        return path + (("i", i),)

    def addrange(self, path, a, b):
        """sub-range of a (possibly already ranged) place"""
        if path and type(path[-1]) is tuple and path[-1][0] == "r":
            _, pa, pb = path[-1]
            if b is None:
                return path[:-1] + (("r", pa + a, pb),)
            if isinstance(b, int):
                return path[:-1] + (("r", pa + a, pa + b),)
            if isinstance(pb, int):
                return path[:-1] + (("r", pa + a, pb - b[1]),)
            if pb is None:
                return path[:-1] + (("r", pa + a, b),)
            return path[:-1] + (("r", pa + a, ("e", pb[1] + b[1])),)
        return path + (("r", a, b),)

    def operand(self, o, fid, mem):
        if "p" in o:
            p = o["p"]
        elif "m" in o:
            p = o["m"]
        elif "c" in o:
            return self.const(o, mem)
        else:
            return 1 if self.__dict__.get("_rt", True) else 0
        if len(p) == 1:
            v = mem.get((fid, p[0]))
            if v is not None:
                return v
        b, path = self.place(p, fid, mem)
        return self.read(b, path, mem)

    def rvalue(self, r, fid, mem, fn):
        k = r[0]
        if k == "use":
            return self.operand(r[1], fid, mem)
        if k == "ref" or k == "ptr" or k == "reborrow":
            b, p = self.place(r[1], fid, mem)
            return Ref(b, p)
        if k == "bin":
            a, b = self.operand(r[2], fid, mem), self.operand(r[3], fid, mem)
            op = r[1]
            v, of = self.binop(op, a, b, r[4])
            if op.endswith("WithOverflow"):
                return Agg(0, (v, of if of is not None else top(a, b)))
            return v
        if k == "un":
            a = self.operand(r[2], fid, mem)
            return self.unop(r[1], a, r[3], mem)
        if k == "cast":
            return self.cast(r[1], self.operand(r[2], fid, mem), r[3], r[4], mem)
        if k == "discr":
            b, p = self.place(r[1], fid, mem)
            v = self.read(b, p, mem)
            return self.discr(v, r[2], b, p)
        if k == "adt":
            ty = self.T[r[1]]
            f = tuple(self.operand(o, fid, mem) for o in r[3])
            if ty["akind"] == "union":
                return f[0] if f else UNIT
            return Agg(r[2], f)
        if k == "tup":
            return Agg(0, tuple(self.operand(o, fid, mem) for o in r[1]))
        if k == "arr":
            return Seq(tuple(self.operand(o, fid, mem) for o in r[2]))
        if k == "clo":
            return Clo(r[1], tuple(self.operand(o, fid, mem) for o in r[2]))
        if k == "rep":
            v = self.operand(r[1], fid, mem)
            if r[2] is None:
                return Seq((Chunk(("repeat",), v),))
            return Seq((v,) * r[2])
        if k == "agg?":
            vals = [self.operand(o, fid, mem) for o in r[1]]
            return vals[0] if vals else UNIT
        return top("rvalue " + k)

    def discr(self, v, ti, b, p):
        ty = self.T[ti]
        t = type(v)
        if t is Agg:
            if ty["k"] == "adt" and ty["akind"] == "enum":
                return int(ty["vs"][v.v]["d"])
            return 0
        if t is int:
            return v
        return Discr((b, p), ti, top(v))

    def unop(self, op, a, ti, mem):
        ty = self.T[ti]
        if op == "Not":
            if ty["k"] == "bool":
                if type(a) is int:
                    return 1 - a
                if type(a) is Sym and not is_top(a):
                    if isinstance(a.t, tuple) and a.t[0] == "Not":
                        return Sym(a.t[1]) if not isinstance(a.t[1], V) else a.t[1]
                    neg = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}
                    if isinstance(a.t, tuple) and len(a.t) == 3 and a.t[0] in neg:
                        return Sym((neg[a.t[0]], a.t[1], a.t[2]))
                    return Sym(("Not", a.t))
                return top(a)
            w = ty["bits"]
            if type(a) is int:
                return ~a if ty["k"] == "int" else a ^ ((1 << w) - 1)
            b = tobits(a, w)
            if b is not None:
                return mkbits(tuple(1 - x if x in (0, 1) else -1 for x in b))
            return top(a)
        if op == "Neg":
            if type(a) in (int, float):
                return -a
            return top(a)
        if op == "PtrMetadata":
            v = self.load(a, mem)
            return self.seqlen(v)
        return top(a)

    def seqlen(self, v):
        t = type(v)
        if t is Seq:
            if not v.chunked:
                return len(v.e)
            n = 0
            ts = []
            for x in v.e:
                if type(x) is Chunk:
                    ts.append(x.t)
                else:
                    n += 1
            if any(isinstance(q, tuple) and len(q) == 2 and q[0] == "top" for q in ts):
                return top(v)
            s = None
            for q in ts:
                l = ("len", q)
                s = l if s is None else ("Add", s, l)
            return Sym(("Add", s, n)) if n else Sym(s)
        if t is OneOf:
            r = None
            for x in v.vs:
                y = self.seqlen(x)
                r = y if r is None else join(r, y)
            return r
        if t is Sym:
            return v if is_top(v) else Sym(("len", v.t))
        if t is MapV:
            if not v.open:
                return len(v.items)
            return top(v)
        return top(v)

    def cast(self, k, v, ti, fi, mem):
        if k == "IntToInt":
            return self.cast_int(v, ti, fi)
        if k == "IntToFloat":
            return self.to_float(v, ti, fi)
        if k == "FloatToFloat":
            return v
        if k == "FloatToInt":
            ty = self.T[ti]
            if type(v) is float:
                lo, hi = (-(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1) if ty["k"] == "int" else (0, (1 << ty["bits"]) - 1)
                if v != v:
                    return 0
                if v in (float("inf"), float("-inf")):
                    return hi if v > 0 else lo
                return max(lo, min(hi, int(v)))
            return top(v)
        if k.startswith("PointerCoercion"):
            if "ReifyFnPointer" in k:
                ty = self.T[fi]
                if ty["k"] == "fndef":
                    return FnV(ty["callee"])
            return v
        return v

    # ---------------------------------------------------------------- bodies
    frames = {}

    def prepared(self, fi):
        p = self.prep.get(fi)
        if p is None:
            blocks = self.F[fi]["body"]["blocks"]
            p = wto(blocks)
            self.prep[fi] = p
        return p

    def call(self, fi, args, mem):
        """Analyse function fi with abstract args; mem is updated in place. Returns value or NEVER."""
        fn = self.F[fi]
        if len(self.stack) > 90:
            self.note("recursion limit at " + fn["p"])
            return top(*args)
        body = fn["body"]
        r = self.tabulate(fi, fn, args, mem)
        if r is not None:
            return r
        self.visited.add(fi)
        self.nextf += 1
        fid = self.nextf
        self.frames[fid] = fn
        argc = body["argc"]
        if body["spread"] is not None and len(args) != argc:
            # rust-call: last formal is a tuple of the remaining actuals
            n = body["spread"] - 1
            args = list(args[:n]) + [Agg(0, tuple(args[n:]))]
        elif len(args) < argc and args and type(args[-1]) is Agg and fn["p"].find("closure") >= 0:
            args = list(args[:-1]) + list(args[-1].f)
        for i in range(argc):
            mem[(fid, i + 1)] = args[i] if i < len(args) else top("missing arg")
        self.stack.append((fn["p"], fn.get("sp", "?")))
        try:
            ret = self.run(fi, fn, fid, mem)
        finally:
            self.stack.pop()
        del self.frames[fid]
        for i in range(len(body["locals"])):
            mem.pop((fid, i), None)
        return ret

    def tabulate(self, fi, fn, args, mem):
        """scalar function of few symbolic bits: tabulate it and express the result bitwise"""
        if not args or len(args) > 3 or not fn.get("local"):
            return None
        bits = []
        for a in args:
            t = type(a)
            if t in (Bits, Ch):
                for x in a.b:
                    if x == -1:
                        return None
                    if x >= 2 and x not in bits:
                        bits.append(x)
            elif t is not int:
                return None
        if not bits or len(bits) > 8:
            return None
        ls = fn["body"]["locals"]
        if any(type(a) is Bits and self.T[ls[i + 1]]["k"] == "int" for i, a in enumerate(args)):
            return None
        res = []
        for m in range(1 << len(bits)):
            asg = {b: (m >> i) & 1 for i, b in enumerate(bits)}
            if any(all(x in asg and asg[x] == 0 for x in g) for g in self.nz):
                res.append(None)
                continue
            cargs = []
            for a in args:
                if type(a) is int:
                    cargs.append(a)
                else:
                    n = 0
                    for i, x in enumerate(a.b):
                        n |= (asg[x] if x >= 2 else x) << i
                    cargs.append(ord(B64[n]) if type(a) is Ch else n)
            key = (fi, tuple(cargs))
            r = self.memo.get(key)
            if r is None:
                tm = {"#w": Fraction(0)}
                r = self.call(fi, cargs, tm)
                if r is not NEVER:
                    r = self.deep(r, tm)
                self.memo[key] = r
            res.append(r)
        live = [r for r in res if r is not None]
        if any(r is NEVER for r in live):
            live2 = [r for r in live if r is not NEVER]
            if not live2:
                return NEVER
            self.maypanic("panic for some inputs of " + fn["p"], mem)
            res = [None if r is NEVER else r for r in res]
        r = self.combine(res, bits)
        return None if inexact(r) else r

    def combine(self, res, bits):
        live = [r for r in res if r is not None]
        f = live[0]
        if all(r == f for r in live):
            return f
        if all(type(r) is Agg for r in live):
            if all(r.v == f.v and len(r.f) == len(f.f) for r in live):
                return Agg(f.v, tuple(self.combine([None if r is None else r.f[i] for r in res], bits) for i in range(len(f.f))))
            r = live[0]
            for x in live[1:]:
                r = join(r, x)
            return r
        if all(type(r) is Seq and not r.chunked and len(r.e) == len(f.e) for r in live) if type(f) is Seq else False:
            return Seq(tuple(self.combine([None if r is None else r.e[i] for r in res], bits) for i in range(len(f.e))))
        if all(type(r) is int for r in live):
            if all(r in _B64SET for r in live):
                xs = [None if r is None else _B64IDX[r] for r in res]
                v = self.combine_int(xs, bits, 6)
                if v is not None:
                    return mkch(v)
            w = max(r.bit_length() for r in live)
            v = self.combine_int(res, bits, w)
            if v is not None:
                return mkbits(v)
        r = live[0]
        for x in live[1:]:
            r = join(r, x)
        return r

    def combine_int(self, xs, bits, w):
        out = []
        for k in range(w):
            col = [None if x is None else (x >> k) & 1 for x in xs]
            s = {c for c in col if c is not None}
            if len(s) == 1:
                out.append(s.pop())
                continue
            hit = None
            for i, b in enumerate(bits):
                if all(c is None or c == ((m >> i) & 1) for m, c in enumerate(col)):
                    hit = b
                    break
            if hit is None:
                return None
            out.append(hit)
        return tuple(out)

    def run(self, fi, fn, fid, mem0):
        body = fn["body"]
        blocks = body["blocks"]
        pos, heads = self.prepared(fi)
        pend = {}
        pend[0] = dict(mem0)
        out = None
        visits = {}
        headstate = {}
        widened = {}
        joins = {}
        while pend:
            if len(pend) == 1:
                b, mem = pend.popitem()
            else:
                cand = sorted(pend, key=lambda x: pos[x] if pos[x] is not None else 1 << 30)
                b = cand[0]
                for c in cand:
                    # a loop head waits until the pending blocks of its body are done
                    if heads[c] and heads[c][-1] == c and any(o != c and c in heads[o] for o in pend):
                        continue
                    b = c
                    break
                mem = pend.pop(b)
            hd = heads[b]
            if hd and hd[-1] == b:
                visits[b] = visits.get(b, 0) + 1
                if visits[b] > self.MAXVISIT:
                    raise Budget("loop in " + fn["p"])
                if b in widened:
                    old = headstate.get(b)
                    if old is not None:
                        new, changed = self.joinmem(old, mem)
                        if not changed:
                            continue
                        joins[b] = joins.get(b, 0) + 1
                        if joins[b] > 3:
                            new = self.widen(old, new, joins[b])
                        mem = new
                    headstate[b] = dict(mem)
                else:
                    headstate[b] = dict(mem)
            # run straight-line until a fork
            while True:
                succ = self.block(fi, fn, fid, blocks, b, mem)
                if succ is None:  # diverged
                    break
                if succ == "ret":
                    if out is None:
                        out = mem
                    else:
                        out, _ = self.joinmem(out, mem)
                    break
                if len(succ) == 1:
                    nb, nm = succ[0]
                    mem = nm
                    if not pend and not heads[nb] and pos[nb] is not None:
                        b = nb
                        continue
                    self.addpend(pend, nb, mem)
                    break
                # undecided fork
                if TRACEFORK:
                    print("FORK", fn["p"], b, blocks[b]["t"][0], (lambda x: show(self.deep(x.val, mem)) if type(x) is Discr else show(x))(self.operand(blocks[b]["t"][1], fid, mem))[:300] if blocks[b]["t"][0] == "switch" else "")
                for h in heads[b]:
                    if any(h not in heads[nb] for nb, _ in succ):
                        widened.setdefault(h, True)
                w = mem.get("#w", Fraction(1)) / len(succ)
                pc0 = mem.get("#pc", ())
                if self.script is not None:
                    n = len(self.choices)
                    d = self.script[n] if n < len(self.script) else 0
                    self.choices.append((d, len(succ)))
                    if n > 400:
                        raise Budget("too many decisions on one path in " + fn["p"])
                    nb, nm = succ[d]
                    nm["#w"] = w
                    nm["#pc"] = self.lastpc = self.extend_pc(pc0, nm.pop("#f", None))
                    self.addpend(pend, nb, nm)
                    break
                if Interp.G is not None:
                    nb, nm = succ[Interp.G.decide(len(succ))]
                    nm["#w"] = w
                    f = nm.pop("#f", None)
                    Interp.G.add(f)
                    nm["#pc"] = self.extend_pc(pc0, f)
                    self.addpend(pend, nb, nm)
                    break
                for nb, nm in succ:
                    nm["#w"] = w
                    nm["#pc"] = self.extend_pc(pc0, nm.pop("#f", None))
                    self.addpend(pend, nb, nm)
                break
        if out is None:
            return NEVER
        ret = out.get((fid, 0), UNIT)
        mem0.clear()
        mem0.update(out)
        return ret

    def extend_pc(self, pc, f):
        """path condition extended by the fork condition f (None: not expressible exactly)"""
        if f is not None and f[0] == "pc":
            return f[1]
        if pc is None or f is None:
            return None
        if f in pc:
            return pc
        return pc + (f,)

    def addpend(self, pend, b, mem):
        o = pend.get(b)
        if o is None:
            pend[b] = mem
        else:
            pend[b] = self.joinmem(o, mem)[0]

    def joinmem(self, a, b):
        out = dict(a)
        changed = False
        for k, v in b.items():
            o = out.get(k)
            if o is None:
                out[k] = v
                changed = True
            elif o is not v:
                if k == "#w":
                    out[k] = min(Fraction(1), o + v)
                    continue
                if k == "#pc":
                    out[k] = join_pc(o, v)
                    continue
                j = join(o, v)
                if j is not o:
                    if not self.same(j, o):
                        changed = True
                        if type(j) is Alt:
                            j = self.witness(j, o, v, a.get("#pc", ()), b.get("#pc", ()))
                        out[k] = j
        return out, changed

    def witness(self, j, o, v, pa, pb):
        """per variant of a joined enum value: a path condition under which it arises"""
        c = {}
        for x, pc in ((v, pb), (o, pa)):
            if type(x) is Agg:
                c[x.v] = pc
            elif type(x) is Alt:
                for k in x.a:
                    c[k] = self.alt_pc(x, k, pc)
        c["J"] = join_pc(pa, pb)
        return Alt(j.a, c)

    def alt_pc(self, x, k, now):
        if not x.c or k not in x.c:
            return None
        pc, base = x.c[k], x.c.get("J", ())
        if pc is None or base is None or now is None:
            return None
        if now[:len(base)] == base:
            return pc + tuple(f for f in now[len(base):] if f not in pc)
        if base[:len(now)] == now:
            return pc
        return None

    def same(self, a, b):
        """structural sameness (for fixpoint detection): unknown parts compare equal to unknown parts"""
        return struct_same(a, b)

    def widen(self, old, new, n):
        out = {}
        for k, v in new.items():
            o = old.get(k)
            if o is None or o is v or k in ("#w", "#pc") or self.same(o, v):
                out[k] = v
            else:
                out[k] = self.widenv(o, v, n)
        return out

    def widenv(self, o, v, n):
        if type(v) is Agg and type(o) is Agg and o.v == v.v and len(o.f) == len(v.f):
            return Agg(v.v, tuple(x if self.same(x, y) else self.widenv(x, y, n) for x, y in zip(o.f, v.f)))
        if type(v) is Seq:
            el = self.seq_any(v) if v.e else None
            if n > 6 and el is not None:
                el = top(el)
            return Seq((Chunk(top(o, v).t, el),))
        if type(v) is It and n <= 6:
            return v
        if type(v) is MapV:
            r = None
            for _, x in v.items:
                r = x if r is None else join(r, x)
            if v.rest is not None:
                r = v.rest if r is None else join(r, v.rest)
            if n > 6 and r is not None:
                r = top(r)
            return MapV((), True, r)
        if type(v) is Alt:
            return Alt({k: tuple(self.widenv(top("w"), x, n) if n > 6 else x for x in f) for k, f in v.a.items()})
        return top(o, v)

    def block(self, fi, fn, fid, blocks, b, mem):
        bb = blocks[b]
        self.steps += 1 + len(bb["s"])
        if self.steps > self.budget:
            raise Budget("step budget in " + fn["p"])
        self.ticks += 1
        if self.ticks & 63 == 0:
            now = time.monotonic()
            if self.tend is None:
                self.tend = min(now + self.PERRUN, self.DEADLINE or now + self.PERRUN)
            elif now > self.tend:
                raise Budget("time budget in " + fn["p"])
        for st in bb["s"]:
            k = st[0]
            if k == "=":
                v = self.rvalue(st[2], fid, mem, fn)
                p = st[1]
                if len(p) == 1:
                    mem[(fid, p[0])] = v
                else:
                    bs, path = self.place(p, fid, mem)
                    self.write(bs, path, v, mem)
            elif k == "sd":
                bs, path = self.place(st[1], fid, mem)
                v = self.read(bs, path, mem)
                f = v.f if type(v) is Agg else ()
                self.write(bs, path, Agg(st[2], f), mem)
            elif k == "dead":
                pass
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], mem)]
        if k == "ret":
            if self.drops is not None:
                self.stackdrops(fn, fid, mem)
            return "ret"
        if k == "switch":
            return self.switch(t, fid, mem, fn, bb)
        if k == "call":
            self.stack[-1] = (fn["p"], t[5])
            args = [self.operand(o, fid, mem) for o in t[2]]
            c = t[1]
            if "dyn" in c:
                f = self.operand(c["dyn"], fid, mem)
                v = self.invoke(f, args, mem)
            else:
                v = self.docall(c, args, mem)
            if v is NEVER or t[4] is None:
                if v is not NEVER:
                    self.panic("diverging call " + c.get("p", "?"), mem)
                return None
            p = t[3]
            if len(p) == 1:
                mem[(fid, p[0])] = v
            else:
                bs, path = self.place(p, fid, mem)
                self.write(bs, path, v, mem)
            return [(t[4], mem)]
        if k == "assert":
            c = self.operand(t[1], fid, mem)
            if type(c) is int:
                if c == int(t[2]):
                    return [(t[3], mem)]
                self.stack[-1] = (fn["p"], t[5])
                self.panic("assert failed: " + t[4], mem)
                return None
            self.stack[-1] = (fn["p"], t[5])
            self.maypanic("assert may fail: " + t[4], mem)
            return [(t[3], mem)]
        if k == "drop":
            if self.drops is not None:
                b, path = self.place(t[1], fid, mem)
                self.drops.append((fn["p"], t[3], self.read(b, path, mem), mem.get("#pc", ())))
            return [(t[2], mem)]
        if k == "unreachable" or k == "resume":
            return None
        return None

    def switch(self, t, fid, mem, fn, bb):
        o = t[1]
        v = self.operand(o, fid, mem)
        targets = t[2]
        tv = type(v)
        ti = t[4]
        if tv is int:
            u = v
            if u < 0:
                u &= (1 << self.T[ti].get("bits", 64)) - 1
            for x, nb in targets:
                if int(x) == u:
                    return [(nb, mem)]
            return [(t[3], mem)]
        if tv is Discr:
            return self.switch_discr(v, targets, t[3], mem, fn, bb)
        out = []
        place = None
        if "p" in o or "m" in o:
            p = o.get("p") or o.get("m")
            if len(p) == 1:
                place = (fid, p[0])
        other = True
        vals = [int(x) for x, _ in targets]
        if tv is OneOf and all(type(x) is int for x in v.vs):
            rest = []
            for x in v.vs:
                if x in vals:
                    nb = targets[vals.index(x)][1]
                    m = dict(mem)
                    if place:
                        m[place] = x
                    out.append((nb, m))
                else:
                    rest.append(x)
            if rest:
                out.append((t[3], dict(mem)))
            return self.mergesucc(out)
        isbool = self.T[ti]["k"] == "bool"
        signed = self.T[ti]["k"] == "int"
        exact = not inexact(v)
        if isbool and exact:
            for c, x in mem.get("#pc", ()) or ():
                if c == v:
                    for y, nb in targets:
                        if int(y) == x:
                            return [(nb, mem)]
                    return [(t[3], mem)]
        for x, nb in targets:
            xi = int(x)
            if signed and xi >> (self.T[ti]["bits"] - 1):
                xi -= 1 << self.T[ti]["bits"]
            e = self.eq(v, xi, ti)
            if e is True:
                return [(nb, mem)]
            if e is False:
                continue
            m = dict(mem)
            if place is not None:
                m[place] = xi
            self.refine(v, xi, m, isbool)
            if exact:
                m["#f"] = (v, xi)
            out.append((nb, m))
        r = self.rng(v, ti)
        if isbool and len(set(vals)) == 2:
            other = False
        if r is not None and r[1] - r[0] < 4096 and set(range(r[0], r[1] + 1)) <= set(vals):
            other = False
        if tv is Ch and all(c in vals for c in _B64SET):
            other = False
        if other:
            m = dict(mem)
            if isbool and len(vals) == 1:
                if place is not None:
                    m[place] = 1 - vals[0]
                self.refine(v, 1 - vals[0], m, True)
                if exact:
                    m["#f"] = (v, 1 - vals[0])
            elif exact:
                m["#f"] = (v, ("not", tuple(vals)))
            out.append((t[3], m))
        self.undecided.append((fn["p"], bb["sp"], v))
        return self.mergesucc(out)

    def mergesucc(self, out):
        d = {}
        for nb, m in out:
            if nb in d:
                fa, fb = d[nb].pop("#f", None), m.pop("#f", None)
                d[nb] = self.joinmem(d[nb], m)[0]
                if fa is not None and fb is not None and fa[0] != "pc" and fa[0] == fb[0]:
                    d[nb]["#f"] = (fa[0], ("or", fa[1], fb[1]))
            else:
                d[nb] = m
        return list(d.items())

    def refine(self, v, x, mem, isbool):
        """on a branch where Sym v has the known value x: substitute it everywhere"""
        if type(v) is Sym and not is_top(v):
            for k, o in list(mem.items()):
                if o is v or (type(o) is Sym and o == v):
                    mem[k] = x

    def switch_discr(self, v, targets, other, mem, fn, bb):
        b, p = v.place
        ty = self.T[v.ti]
        cur = self.read(b, p, mem)
        d2v = {int(x["d"]): i for i, x in enumerate(ty["vs"])} if ty["k"] == "adt" and ty["akind"] == "enum" else {}
        out = []
        used = set()
        for x, nb in targets:
            vi = d2v.get(int(x))
            if vi is None:
                continue
            used.add(vi)
            nv = self.as_variant(cur, vi, ty)
            if nv is None:
                continue
            m = dict(mem)
            self.write(b, p, nv, m)
            self.variant_cond(cur, vi, m)
            out.append((nb, m))
        rest = [i for i in range(len(ty.get("vs", []))) if i not in used]
        feas = [i for i in rest if self.as_variant(cur, i, ty) is not None]
        if feas:
            m = dict(mem)
            if len(feas) == 1:
                self.write(b, p, self.as_variant(cur, feas[0], ty), m)
            elif type(cur) is Alt:
                self.write(b, p, Alt({k: f for k, f in cur.a.items() if k in feas}, cur.c), m)
            if len(feas) == 1:
                self.variant_cond(cur, feas[0], m)
            out.append((other, m))
        if len(out) > 1:
            self.undecided.append((fn["p"], bb["sp"], cur))
        return self.mergesucc(out) or None

    def variant_cond(self, cur, vi, m):
        if type(cur) is Alt and cur.c:
            pc = self.alt_pc(cur, vi, m.get("#pc", ()))
            m["#f"] = ("pc", pc)
        elif type(cur) is Sym and not is_top(cur) and not inexact(cur):
            m["#f"] = (Sym(("variant", cur.t)), vi)

    def as_variant(self, cur, vi, ty):
        t = type(cur)
        if t is Agg:
            return cur if cur.v == vi else None
        if t is Alt:
            return Agg(vi, cur.a[vi]) if vi in cur.a else None
        n = len(ty["vs"][vi]["f"])
        if t is Sym:
            # uninhabited payload (e.g. Result<!, E>::Ok) is infeasible
            for f in ty["vs"][vi]["f"]:
                if f["t"] is not None and self.T[f["t"]]["k"] == "never":
                    return None
            if is_top(cur):
                return Agg(vi, (cur,) * n)
            return Agg(vi, tuple(Sym(("f", j, ("d", vi, cur.t))) for j in range(n)))
        return Agg(vi, tuple(top(cur) for _ in range(n)))

    # ---------------------------------------------------------------- calls
    def docall(self, c, args, mem):
        path = norm_path(c["p"])
        fi = c.get("i")
        rpath = None
        fn = None
        if fi is not None:
            fn = self.F[fi]
            rpath = norm_path(fn["p"])
        h = self.hooks.get(path)
        if h is None and rpath is not None:
            h = self.hooks.get(rpath)
        if h is not None:
            r = h(self, mem, args, c)
            if r is not NotImplemented:
                return r
        if path in self.logset or (rpath in self.logset):
            self.event("call", path if path in self.logset else rpath, tuple(self.deep(a, mem) for a in args), mem)
        if path.startswith("core::ops::function::Fn") and len(args) == 2 and type(args[1]) is Agg:
            return self.invoke(args[0], list(args[1].f), mem)
        if fn is not None and "body" in fn and (fn["local"] or fn["kr"] == "cesride"):
            return self.call(fi, args, mem)
        m = self.models.get(path)
        if m is not None:
            r = m(self, mem, args, c)
            if r is not NotImplemented:
                return r
        if rpath is not None and rpath != path:
            m = self.models.get(rpath)
            if m is not None:
                r = m(self, mem, args, c)
                if r is not NotImplemented:
                    return r
        if fn is not None and "body" in fn:
            return self.call(fi, args, mem)
        if "panicking::" in path or path.endswith("_failed") or "slice_error_fail" in path:
            return self.panic(path, mem)
        return self.unknown_call(path, args, mem, c)

    def unknown_call(self, path, args, mem, c):
        self.note(path)
        vals = [self.deep(a, mem) for a in args]
        # &mut arguments are clobbered
        for a, m in zip(args, self.mutargs(c)):
            if m and type(a) is Ref:
                self.write(a.b, a.p, top(path, *vals), mem)
        return top(path, *vals)

    def mutargs(self, c):
        """which arguments a callee can write through"""
        fi = c.get("i")
        if fi is not None:
            f = self.F[fi]
            if "mut" in f:
                return f["mut"]
            if "body" in f:
                b = f["body"]
                ts = (self.T[t] for t in b["locals"][1:1 + b["argc"]])
                return [t["k"] == "ref" and t["mut"] for t in ts]
        return [False] * 8

    def invoke(self, f, args, mem):
        """call a callable value with positional args"""
        n = 0
        ref = None
        while type(f) is Ref and n < 4:
            ref = f
            f = self.load(f, mem)
            n += 1
        if type(f) is FnV:
            return self.docall(f.c, list(args), mem)
        if type(f) is Clo:
            ty = self.T[f.ty]
            if ty["k"] == "fndef":
                return self.docall(ty["callee"], list(args), mem)
            fi = ty["fn"]
            fn = self.F[fi]
            if "body" not in fn:
                return top(f, *args)
            l1 = fn["body"]["locals"][1]
            selfty = self.T[l1]
            if selfty["k"] == "ref":
                a0 = ref if ref is not None else self.alloc(mem, f)
            else:
                a0 = f
            return self.call(fi, [a0] + list(args), mem)
        self.note("call of unknown callable")
        return top(f, *args)


def inexact(v, d=0):
    """does the value involve anything whose possible values are over-approximated?"""
    t = type(v)
    if t in (int, str, float, bool, type(None), Rat, Ch, FnV):
        return t is Ch and -1 in v.b
    if d > 30:
        return True
    if t is Sym:
        return True if is_top(v) else inexact_term(v.t, d + 1)
    if t is Bits:
        return -1 in v.b
    if t is Chunk:
        return inexact_term(v.t, d + 1)
    if t in (Seq,):
        return any(type(x) is not int and inexact(x, d + 1) for x in v.e)
    if t in (Agg, Obj, Clo):
        return any(inexact(x, d + 1) for x in v.f)
    return True


def inexact_term(t, d):
    if isinstance(t, V):
        return inexact(t, d)
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "top":
            return True
        if t and t[0] in ("elem", "idx", "char", "piece", "const", "uninit"):
            return True
        return any(inexact_term(x, d + 1) for x in t)
    return isinstance(t, frozenset)


_B64SET = {ord(c) for c in B64}
_B64IDX = {ord(c): i for i, c in enumerate(B64)}
