"""Check framework: obligations, verdicts, evidence, known findings."""
import importlib
import json
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import facts as _facts                                           # noqa: E402
from domain import (B64, Agg, Alt, Bits, Ch, Chunk, MapV, Obj, OneOf, Rat, Ref, Seq, Sym, V, chbits, hexbits, ishex, mkbits, show, is_top, tobits)  # noqa: E402
from absint import NEVER, Budget, Guide, Infeasible, Interp, inexact                                # noqa: E402
from world import Missing, Path, World, atoms, forced, sat, show_pc                   # noqa: E402

VERIF = _facts.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Fail(Exception):
    pass


def signed_zero(v, d=0):
    """does the value hold a floating-point zero (0.0 and -0.0 compare equal but are not the same)?"""
    if type(v) is float:
        return v == 0
    if d < 12:
        if type(v) in (Agg, Obj):
            return any(signed_zero(x, d + 1) for x in v.f)
        if type(v) is Seq:
            return any(type(x) not in (int, Bits, Ch) and signed_zero(x, d + 1) for x in v.e)
        if type(v) is MapV:
            return any(signed_zero(x, d + 1) for _, x in v.items)
    return False


def differs(a, b, nz=(), d=0):
    """True: certainly different for some input; False: equal; None: cannot tell"""
    if a is b:
        return False
    if a is NEVER or b is NEVER:
        return True
    try:
        if a == b and not inexact(a) and not signed_zero(a):
            return False
    except Exception:
        pass
    if d > 12:
        return None
    ta, tb = type(a), type(b)
    if ta is float and tb is float:
        return repr(a) != repr(b)
    if ishex(a) or ishex(b):
        x, y = hexbits(a), hexbits(b)
        if x is not None and y is not None:
            return False if x == y else _bits_differ(x, y, nz)
        if ta is int or tb is int:
            return True
        return None
    sc = (int, Bits, Ch)
    if ta in sc and tb in sc:
        if ta is int and tb is int:
            return a != b
        if ta is tb:
            if -1 in a.b or -1 in b.b:
                # compare the known positions only
                for x, y in zip(a.b, b.b):
                    if x in (0, 1) and y in (0, 1) and x != y:
                        return True
                return None
            w = max(len(a.b), len(b.b))
            x, y = a.b + (0,) * (w - len(a.b)), b.b + (0,) * (w - len(b.b))
            if x == y:
                return False
            return _bits_differ(x, y, nz)
        if (ta is Ch) != (tb is Ch):
            o = a if ta is not Ch else b
            c = a if ta is Ch else b
            if type(o) is int:
                from domain import chbits
                s = chbits(o)
                if s is None or -1 not in c.b:
                    return True if s is None else _bits_differ(s, c.b, nz)
            return None
        w = len(a.b) if ta is Bits else len(b.b)
        from domain import tobits
        x, y = tobits(a, w), tobits(b, w)
        if -1 in x or -1 in y:
            for p, q in zip(x, y):
                if p in (0, 1) and q in (0, 1) and p != q:
                    return True
            return None
        return _bits_differ(x, y, nz)
    if ta is Seq and tb is Seq:
        ca, cb = a.chunked, b.chunked
        if not ca and not cb:
            if len(a.e) != len(b.e):
                return True
            res = False
            for x, y in zip(a.e, b.e):
                r = differs(x, y, nz, d + 1)
                if r is True:
                    return True
                if r is None:
                    res = None
            return res
        # leading concrete parts
        for x, y in zip(a.e, b.e):
            if type(x) is Chunk or type(y) is Chunk:
                break
            if differs(x, y, nz, d + 1) is True:
                return True
        return None
    if ta is Agg and tb is Agg:
        if a.v != b.v or len(a.f) != len(b.f):
            return True
        res = False
        for x, y in zip(a.f, b.f):
            r = differs(x, y, nz, d + 1)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    for x, y in ((a, b), (b, a)):
        if type(x) is Alt and type(y) is Agg:
            for v, pc in (x.c or {}).items():
                if v != y.v and v in x.a and sat(pc, nz) is True:
                    return True
            return None
        if type(x) is OneOf and type(y) in (int, Seq, Agg):
            if all(differs(z, y, nz, d + 1) is True for z in x.vs):
                return True
            return None
    if ta is Obj and tb is Obj:
        if a.k != b.k:
            return True
        res = False
        if len(a.f) != len(b.f):
            return None
        for x, y in zip(a.f, b.f):
            r = differs(x, y, nz, d + 1)
            if r is True:
                return True
            if r is None:
                res = None
        return res
    if ta is MapV and tb is MapV and not a.open and not b.open:
        if len(a.items) != len(b.items):
            return True
        res = False
        for (k, x), (l, y) in zip(a.items, b.items):
            for r in (differs(k, l, nz, d + 1), differs(x, y, nz, d + 1)):
                if r is True:
                    return True
                if r is None:
                    res = None
        return res
    if ta is Rat and tb is Rat:
        return a.q != b.q
    if {ta, tb} <= {Agg, Seq, MapV, int, Rat} and ta is not tb:
        return True
    return None


def _bits_differ(x, y, nz):
    """some assignment respecting the non-zero facts distinguishes the two bit vectors"""
    for p, q in zip(x, y):
        if p == q:
            continue
        if p in (0, 1) and q in (0, 1):
            return True
        # p (or q) is a free bit: choose it to differ; non-zero groups can always be satisfied when
        # they have another bit, or when the bit must be one and the other side is a zero
        for s, o in ((p, q), (q, p)):
            if s >= 2:
                gr = [g for g in nz if s in g]
                if not gr or all(len(g) > 1 for g in gr):
                    return True
                if o == 0:
                    return True
    return None


def subst(v, env, d=0):
    """the value with the bits of env replaced"""
    t = type(v)
    if t in (Bits, Ch):
        b = tuple(env.get(x, x) for x in v.b)
        if b == v.b:
            return v
        if t is Bits:
            return mkbits(b)
        if all(x in (0, 1) for x in b):
            return ord(B64[sum(x << i for i, x in enumerate(b))])
        return Ch(b)
    if d > 12:
        return v
    if t is Seq:
        return Seq(tuple(subst(x, env, d + 1) for x in v.e))
    if t is Agg:
        return Agg(v.v, tuple(subst(x, env, d + 1) for x in v.f))
    return v


def diffbits(a, b, out, d=0):
    """positions at which two values of one shape differ: pairs of bits, or None where they differ whatever the input"""
    if d > 12 or len(out) > 40:
        return
    if type(a) is Seq and type(b) is Seq and not a.chunked and not b.chunked and len(a.e) == len(b.e):
        for x, y in zip(a.e, b.e):
            diffbits(x, y, out, d + 1)
        return
    if type(a) is Agg and type(b) is Agg and a.v == b.v and len(a.f) == len(b.f):
        for x, y in zip(a.f, b.f):
            diffbits(x, y, out, d + 1)
        return
    if ishex(a) or ishex(b):
        x, y = hexbits(a), hexbits(b)
        if x is None or y is None:
            return
    elif type(a) is int and type(b) is int:
        if a != b:
            out.append(None)
        return
    elif type(a) is Ch or type(b) is Ch:
        x, y = (v.b if type(v) is Ch else chbits(v) if type(v) is int else None for v in (a, b))
        if x is None or y is None:
            return
    elif type(a) in (int, Bits) and type(b) in (int, Bits):
        w = max(len(v.b) if type(v) is Bits else v.bit_length() for v in (a, b))
        x, y = tobits(a, w), tobits(b, w)
    else:
        return
    for p, q in zip(x, y):
        if p != q and p >= 0 and q >= 0:
            out.append(None if p < 2 and q < 2 else (p, q))


def differs_when(a, b, nz, pc):
    """as `differs`, for inputs that satisfy the path condition pc"""
    r = differs(a, b, nz)
    if r is not True or pc == ():
        return r
    if pc is None or sat(pc, nz) is not True:
        return None
    env = forced(pc)
    if env is None:
        return None
    a, b = subst(a, env), subst(b, env)
    r = differs(a, b, nz)
    if r is not True:
        return r
    out = []
    diffbits(a, b, out)
    if not out or None in out:
        # different shapes, or a position that differs whatever the input
        return True
    for x, y in out:
        for vx, vy in ((0, 1), (1, 0)):
            if x < 2 and x != vx or y < 2 and y != vy:
                continue
            ext = tuple((Bits((p,)), q) for p, q in ((x, vx), (y, vy)) if p >= 2)
            if sat(tuple(pc) + ext, nz) is True:
                return True
    return None


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self._w = {}
        self.passed = []
        self.failed = []
        self.unknown_ = []
        self.info = {}
        self.analysed = set()
        self.unmod = {}
        self.t0 = time.time()

    # ---- worlds
    def world(self, crate="cesride"):
        if crate not in self._w:
            self._w[crate] = World(crate)
        return self._w[crate]

    @property
    def W(self):
        return self.world("cesride")

    @property
    def WW(self):
        return self.world("cesride_wasm")

    # ---- parallel work: fn(ctx, *item) for every item, results merged in item order
    def pmap(self, fn, items, jobs=None):
        items = list(items)
        jobs = min(jobs or os.cpu_count() or 1, len(items), 16)
        def guarded(c, it):
            n = len(c.passed), len(c.failed), len(c.unknown_)
            attempt(c, it)
            if len(c.failed) == n[1] and any(not key_text(k).startswith("internal") and "unmodelled" not in w for k, w in c.unknown_[n[2]:]):
                refine(c, attempt, it, n)

        def attempt(c, it):
            try:
                fn(c, *it)
            except Infeasible:
                raise
            except Missing as e:
                c.fail("anchor:" + norm_key(str(e)), "-", "an anchor this property is about no longer exists: %s" % e)
            except _facts.BuildError:
                raise
            except Exception as e:       # the analysis itself gave up on this item: undecided, never an alarm
                c.unknown("internal:%s" % "/".join(str(x)[:40] for x in it), "%s: %s" % (type(e).__name__, e))
                if os.environ.get("SA_TRACE"):
                    traceback.print_exc()

        if jobs <= 1 or os.environ.get("SA_JOBS") == "1":
            for it in items:
                guarded(self, it)
            return
        self.W  # load before forking
        import pickle
        kids = []
        for j in range(jobs):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(rd)
                    res = []
                    for i in range(j, len(items), jobs):
                        c = Ctx(self.prop, self.tier, self.seed)
                        c._w = self._w
                        guarded(c, items[i])
                        res.append((i, c.passed, c.failed, c.unknown_, set(), c.unmod, c.info))
                    if res:
                        res[-1][4].update((n, i) for n, w in self._w.items() for i in w.visited)
                    with os.fdopen(wr, "wb") as fh:
                        pickle.dump(res, fh, protocol=4)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(rc)
            os.close(wr)
            kids.append((pid, rd))
        allr = []
        bad = False
        for pid, rd in kids:
            with os.fdopen(rd, "rb") as fh:
                data = fh.read()
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad = True
            else:
                allr += pickle.loads(data)
        if bad:
            self.unknown("internal:worker", "a worker process died; its items are undecided")
        for i, p, f, u, a, um, info in sorted(allr, key=lambda x: x[0]):
            self.passed += p
            have = {k for k, _, _ in self.failed}
            self.failed += [x for x in f if x[0] not in have or not str(x[0]).startswith("anchor:")]
            self.unknown_ += u
            self.analysed |= a
            for k, v in um.items():
                self.unmod[k] = self.unmod.get(k, 0) + v
            for k, v in info.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    self.info[k] = self.info.get(k, 0) + v
                elif isinstance(v, list):
                    self.info.setdefault(k, []).extend(v)
                else:
                    self.info[k] = v

    # ---- verdicts
    def ok(self, key, note=None):
        self.passed.append(key)

    def fail(self, key, where, msg, sure=False):
        self.failed.append((key, where, msg))

    def unknown(self, key, why):
        self.unknown_.append((key, why))

    def require(self, key, cond, where, msg):
        if cond:
            self.ok(key)
        else:
            self.fail(key, where, msg)
        return cond

    def seen(self, run):
        """account for what a run met that is not modelled"""
        for u in run.I.unmodelled:
            self.unmod[u] = self.unmod.get(u, 0) + 1

    def differs(self, got, want, nz):
        return differs(got, want, nz)

    def eq(self, key, run, got, want, where, what):
        """obligation: the two abstract values are equal for every input of the run"""
        d = self.differs(got, want, run.I.nz)
        if d is False:
            self.ok(key)
            return True
        if d is True and run.modelled():
            self.fail(key, where, "%s: got %s, expected %s" % (what, short(got), short(want)), sure=True)
            return False
        self.unknown(key, "%s: got %s, expected %s; %s" % (what, short(got), short(want), notes(run)))
        return None

    def must_ok(self, key, run, out, where, what):
        """obligation: the call succeeds for every input of the run; the Ok payload or None"""
        k = out.kind()
        if k == "ok":
            if self.panics(key, run, where, what):
                return None
            self.ok(key)
            return out.okv()
        if not run.modelled():
            self.unknown(key, "%s: %s; %s" % (what, k, notes(run)))
            return out.okv() if k in ("mixed", "?") else None
        if k == "panic":
            self.fail(key, where, "%s panics: %s" % (what, panics_text(run)), sure=True)
            return None
        if k == "err":
            self.fail(key, where, "%s is refused: %s%s" % (what, out.errname() or "Err", stack_text(run)), sure=True)
            return None
        if k == "mixed":
            r, pc = run.err_witness(out)
            if r is True:
                self.fail(key, where, "%s is refused when %s: %s" % (what, short(show_pc(pc)), out.errname() or "Err"), sure=True)
                return None
        self.unknown(key, "%s: %s; %s" % (what, k, notes(run)))
        return out.okv()

    def must_err(self, key, run, out, where, what, names=None):
        """obligation: the call returns Err (never Ok, never a panic) for every input of the run"""
        k = out.kind()
        if k == "err":
            if self.panics(key, run, where, what):
                return False
            if names and out.errname() is not None and out.errname() not in names:
                if run.modelled():
                    self.fail(key, where, "%s: error is %s, expected one of %s" % (what, out.errname(), ", ".join(names)), sure=True)
                    return False
            self.ok(key)
            return True
        if not run.modelled():
            self.unknown(key, "%s: %s; %s" % (what, k, notes(run)))
            return None
        if k == "panic":
            self.fail(key, where, "%s panics instead of returning an error: %s" % (what, panics_text(run)), sure=True)
            return False
        if k == "ok":
            self.fail(key, where, "%s is accepted" % what, sure=True)
            return False
        if k == "mixed":
            r, pc = run.err_witness(out, 0)
            if r is True:
                self.fail(key, where, "%s is accepted when %s" % (what, short(show_pc(pc))), sure=True)
                return False
        self.unknown(key, "%s: %s; %s" % (what, k, notes(run)))
        return None

    def panics(self, key, run, where, what):
        ps = run.real_panics()
        if ps:
            self.fail(key, where, "%s can panic: %s" % (what, "; ".join(sorted({pt(p) for p in ps})[:3])), sure=True)
            return True
        return False


def refine(c, fn, it, n, cap=96, secs=40):
    """an item with undecided obligations once more, path by path: every combination of decisions at the undecided
    forks of its runs, fewest deviations first. Violations on certain paths count; when every path is analysed and
    every obligation holds on each of them the item is decided."""
    t0 = time.monotonic()
    queue, head = [((), ())], 0
    complete, fails, passed, keep, seen = True, {}, None, [], 0
    while head < len(queue):
        left = (Interp.DEADLINE or t0 + 1e9) - time.monotonic()
        if seen >= cap or time.monotonic() - t0 > secs or left < 5 or len(fails) >= 3:
            complete = False
            break
        script, arity = queue[head]
        head += 1
        seen += 1
        g = Interp.G = Guide(script, arity, sat)
        r = Refined(c.prop, c.tier, c.seed)
        r._w = c._w
        dead = False
        try:
            fn(r, it)
        except Infeasible:
            dead = True
        finally:
            Interp.G = None
            Path.now.clear()
        if g.off:
            complete = False
        ds = tuple(x for x, k in g.choices)
        ar = tuple(k for x, k in g.choices)
        for i in range(len(script), len(ds)):
            for alt in range(1, ar[i]):
                queue.append((ds[:i] + (alt,), ar[:i + 1]))
        if dead:
            continue
        for k, where, msg in r.failed:
            fails.setdefault(norm_key(k), (k, where, msg))
        if r.unknown_ or r.failed:
            keep += r.unknown_
        if passed is None or len(r.passed) < len(passed):
            passed = r.passed
    c.info["items_partitioned"] = c.info.get("items_partitioned", 0) + 1
    c.info["paths_partitioned"] = c.info.get("paths_partitioned", 0) + seen
    if fails:
        bad = {norm_key(k) for k in fails}
        c.failed += fails.values()
        c.unknown_[n[2]:] = [u for u in c.unknown_[n[2]:] if norm_key(u[0]) not in bad]
    elif complete and not keep and passed is not None:
        c.passed += [k for k, w in c.unknown_[n[2]:]]
        del c.unknown_[n[2]:]


class Refined(Ctx):
    """obligations of one check item on one path through all of its runs: a violation counts only when the
    decisions taken amount to a condition that some input certainly meets"""

    def certain(self):
        g = Interp.G
        pc = g.pc
        for p in Path.now:
            pc = None if pc is None or p is None else pc + tuple(x for x in p if x not in pc)
        return pc if not g.off and pc is not None and plain(pc) and sat(pc, g.nz) is True else None

    def fail(self, key, where, msg, sure=False):
        pc = self.certain() if sure else None
        if pc is None:
            self.unknown(key, msg)
        else:
            self.failed.append((key, where, msg + (" [when %s]" % short(show_pc(pc), 200) if pc else "")))

    def require(self, key, cond, where, msg):
        if cond:
            self.ok(key)
        else:
            self.unknown(key, msg)
        return cond

    def differs(self, got, want, nz):
        g = Interp.G
        return differs_when(got, want, list(g.nz | set(nz)), g.pc)


def plain(pc):
    """the condition is about input bits only"""
    for c, v in pc:
        at = atoms(c)
        if at is None or not all(isinstance(a, int) for a in at):
            return False
    return True


def pt(e):
    return "%s in %s" % (e.what, e.fn)


def panics_text(run):
    return "; ".join(sorted({pt(e) for e in run.events("panic")})[:4])


def stack_text(run):
    return ""


def notes(run):
    u = sorted(run.I.unmodelled)[:4]
    return "unmodelled: %s" % ", ".join(map(str, u)) if u else "imprecise"


def short(v, n=300):
    s = v if isinstance(v, str) else show(v) if isinstance(v, V) else str(v)
    return s if len(s) <= n else s[:n] + "…"


# ------------------------------------------------------------------ known findings
def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", line.rstrip("\n"))
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def key_text(key):
    return key if isinstance(key, str) else "/".join(map(str, key))


def norm_key(k):
    return re.sub(r"\s+", "_", key_text(k))


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import absint
    absint.Interp.DEADLINE = time.monotonic() + float(os.environ.get("SA_DEADLINE", "420"))
    mod = importlib.import_module("checks." + prop.lower())
    ctx = Ctx(prop, tier, seed)
    try:
        mod.check(ctx)
    except Missing as e:
        ctx.fail("anchor:" + norm_key(str(e)), "-", "an anchor this property is about no longer exists: %s" % e)
    except _facts.BuildError as e:
        print("BUILD-ERROR: %s" % e)
        return 2
    except Exception as e:
        traceback.print_exc()
        ctx.unknown("internal", "%s: %s" % (type(e).__name__, e))
    # a run that decides next to nothing means the analysis no longer reaches the code the property is about
    floor = max(1, getattr(mod, "FLOOR", 1) // 20)
    if len(ctx.passed) + len(ctx.failed) < floor:
        ctx.fail("floor", "-", "only %d obligations could be decided, at least %d are expected: the code is outside what this analysis covers"
                 % (len(ctx.passed) + len(ctx.failed), floor))
    known = load_known()
    viol, kf = [], []
    for key, where, msg in ctx.failed:
        nk = norm_key(key)
        if (prop, nk) in known:
            kf.append((nk, where, msg))
        else:
            viol.append((nk, where, msg))
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    n = len(ctx.passed) + len(ctx.failed) + len(ctx.unknown_)
    ctx.analysed |= {(c, i) for c, w in ctx._w.items() for i in w.visited}
    fns = sorted({ctx._w[c].F[i]["p"] for c, i in ctx.analysed}) if ctx.analysed else []
    cov = {
        "explanation": getattr(mod, "EXPLAIN", mod.__doc__ or "").strip(),
        "rule": getattr(mod, "RULE", ""),
        "obligations": n,
        "discharged": len(ctx.passed),
        "undecided": len(ctx.unknown_),
        "undecided_samples": ["%s: %s" % (norm_key(k), short(w, 200)) for k, w in ctx.unknown_[:12]],
        "known_findings": [k for k, _, _ in kf],
        "functions_analysed": len(fns),
        "functions": fns[:2000],
        "samples": [norm_key(k) for k in ctx.passed[:6]],
        "tree": {c: w.facts.get("tree_hash") for c, w in ctx._w.items()},
        "mir_bodies_available": {c: sum(1 for f in w.F if "body" in f) for c, w in ctx._w.items()},
    }
    cov.update(ctx.info)
    if ctx.unmod:
        cov["unmodelled_callees"] = sorted(ctx.unmod)[:40]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []) + COMMON_ASSUME, "wall_s": round(wall, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k, where, msg in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, msg))
    if a.v:
        for k, w in ctx.unknown_:
            print("UNDECIDED %s: %s" % (norm_key(k), w))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d known (%.1fs)" % (
        prop, n, len(ctx.passed), len(ctx.unknown_), len(viol), len(kf), wall))
    if viol:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as fh:
            for k, where, msg in viol:
                fh.write("%s\n  where: %s\n  %s\n" % (k, where, msg))
        for k, where, msg in viol[:40]:
            print("  %s\n    at %s\n    %s" % (k, where, msg))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


COMMON_ASSUME = [
    "rustc's MIR (nightly toolchain) is a faithful rendering of the source the build compiles",
    "std, core, alloc and dependency calls behave as modelled in sa/models.py (their own bodies are not analysed)",
]
