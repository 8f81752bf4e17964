"""Operations have no hidden inputs or effects: an effect analysis of the call graph. No public operation reaches the clock (but date-times without a
stamp), randomness (but signers and salters), the environment, files, network, processes, threads, console, hash-order iteration (but over a map it
is given) or state that outlives the call; every public type may be shared between threads."""
import re
from absint import norm_path

RULE = "one obligation per public function and effect class, per static item and per public type"
FLOOR = 2000
EFFECTS = {
    "randomness": r"OsRng|thread_rng|ThreadRng|^rand::|^rand_core::|^getrandom|^fastrand|StdRng|SmallRng|SigningKey::(random|generate)|try_random",
    "clock": r"(Utc|Local)::now|SystemTime::(now|elapsed)|Instant::(now|elapsed)",
    "the time zone of the environment": r"(^|[:<& ])Local::(now|today|timestamp)|chrono::offset::local::|chrono::Local\b",
    "environment, files, network, processes or console": r"^std::(env|fs|net|process|os)::|^std::io::(stdio|_print|_eprint|stdin|stdout|stderr)|^std::sys::",
    "threads": r"^std::thread::(spawn|sleep|Builder|scope|park|yield_now)",
    "hash-order iteration": r"hash::(map|set)::Hash(Map|Set).*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|into_iter|retain|extract_if)$",
}
SHARED = r"(^|[<(, :&])(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|Atomic\w+|ReentrantLock|Condvar|mpsc::\w+|DashMap|Receiver|Sender)(<|$|[>, )])"
LAZY = r"(lazy_static::lazy::Lazy|LazyLock|LazyCell|once_cell::\w+::Lazy)<"
ONCE = r"(OnceLock|OnceBox|once_cell::sync::OnceCell|Once)(<|$)"


def allowed(effect, f, W):
    p = norm_path(f["p"])
    if effect == "randomness":
        return "::signer::" in p or "::salter::" in p or "Signer" in p or "Salter" in p
    if effect == "clock":
        return "::dater::" in p or "Dater" in p
    if effect == "hash-order iteration":
        b = f.get("body")
        return bool(b) and any("hash::map::HashMap" in W.T[t]["s"] or "hash::set::HashSet" in W.T[t]["s"] for t in b["locals"][1:b["argc"] + 1])
    return False


class Graph:
    def __init__(self, W):
        self.W = W
        self.out, self.calls, self.statics = {}, {}, {}
        for i, f in enumerate(W.F):
            if "body" in f:
                W.visited.add(i)
                self.scan(i, f)

    def scan(self, i, f):
        out, calls, st = set(), [], set()
        T = self.W.T

        def walk(j):
            if isinstance(j, dict):
                if "p" in j and isinstance(j.get("p"), str) and "a" in j:
                    calls.append(j)
                    if isinstance(j.get("i"), int):
                        out.add(j["i"])
                if isinstance(j.get("static"), str):
                    st.add(j["static"])
                for v in j.values():
                    walk(v)
            elif isinstance(j, list):
                for v in j:
                    walk(v)
        walk(f["body"]["blocks"])
        for t in f["body"]["locals"]:
            k = T[t]
            if k["k"] in ("closure", "fndef") and isinstance(k.get("fn"), int):
                out.add(k["fn"])
        self.out[i], self.calls[i], self.statics[i] = out, calls, st

    def reach(self, i):
        seen, st, via = {i}, [i], {i: None}
        while st:
            a = st.pop()
            for b in sorted(self.out.get(a, ())):
                if b not in seen:
                    seen.add(b)
                    via[b] = a
                    st.append(b)
        return via

    def path(self, via, j):
        p = []
        while j is not None:
            f = self.W.F[j]
            if f.get("local"):
                p.append(norm_path(f["p"]))
            j = via[j]
        return " -> ".join(reversed(p))


def direct(W, g, i):
    """effects of a local function's own calls: [(effect, callee)]"""
    out = []
    if not W.F[i].get("local"):
        return out
    for c in g.calls.get(i, ()):
        names = {norm_path(c["p"])}
        if isinstance(c.get("i"), int):
            names.add(norm_path(W.F[c["i"]]["p"]))
        for e, pat in EFFECTS.items():
            for n in names:
                if re.search(pat, n) and not n.startswith("crate::"):
                    out.append((e, n))
        full = " ".join(W.T[x]["s"] for x in (c.get("a") or []) if isinstance(x, int))
        for n in names:
            if n.startswith("std::thread::local::LocalKey") and re.search(SHARED, full + " " + c["p"]):
                out.append(("state that outlives the call", n))
            if re.search(r"OnceLock(::<.*>)?::(set|take|get_mut)$|once_cell::.*::(set|take)$", c["p"]):
                out.append(("state that outlives the call", n))
            if re.search(r"(OnceLock|OnceCell|LazyLock|LazyCell|Lazy)\b.*::(get_or_init|get_or_try_init|new|force)$", n):
                # an initializer that captures arguments makes the cell remember the first call's
                for x in c.get("a") or []:
                    t = W.T[x] if isinstance(x, int) else {}
                    if t.get("k") == "closure" and t.get("ups"):
                        out.append(("state that outlives the call", n + " with an initializer that captures values"))
    for s in g.statics.get(i, ()):
        for d in W.facts["statics"]:
            if d["path"] == s:
                ty = W.T[d["t"]]["s"]
                if d["mut"] or re.search(SHARED, ty):
                    out.append(("state that outlives the call", "static %s: %s" % (s, ty)))
    return out


def check(ctx):
    W = ctx.W
    g = Graph(W)
    eff = {i: direct(W, g, i) for i in range(len(W.F))}
    once = [i for i in eff if any(re.search(ONCE, W.T[x]["s"]) for c in g.calls.get(i, ()) for x in (c.get("a") or []) if isinstance(x, int))]
    n = 0
    for i, f in enumerate(W.F):
        if not (f.get("local") and f.get("reach") and "body" in f):
            continue
        n += 1
        name = norm_path(f["p"])
        via = g.reach(i)
        hit = {}
        for j in sorted(via):
            for e, c in eff.get(j, ()):
                hit.setdefault(e, (j, c))
        for e in list(EFFECTS) + ["state that outlives the call"]:
            k = "%s/%s" % (name, e.split(",")[0])
            if e in hit and not allowed(e, f, W):
                j, c = hit[e]
                ctx.fail(k, W.loc(i), "%s reaches %s: %s -> %s (%s)" % (name, e, g.path(via, j), c, W.F[j].get("sp", "?")))
            else:
                ctx.ok(k)
    # lazily initialised statics must not remember anything random or timed
    for d in W.facts["statics"]:
        ty = W.T[d["t"]]["s"]
        k = "static/" + d["path"]
        if d["mut"]:
            ctx.fail(k, d["sp"], "mutable static %s" % d["path"])
        elif re.search(SHARED, ty):
            ctx.fail(k, d["sp"], "static %s with interior mutability: %s" % (d["path"], ty))
        else:
            ctx.ok(k)
        if re.search(ONCE, ty) or re.search(LAZY, ty):
            users = [i for i in range(len(W.F)) if d["path"] in g.statics.get(i, ())]
            bad = None
            for i in users:
                via = g.reach(i)
                for j in sorted(via):
                    for e, c in eff.get(j, ()):
                        if e in ("randomness", "clock"):
                            bad = (e, g.path(via, j))
            if bad:
                ctx.fail(k + "/init", d["sp"], "static %s keeps a value made from %s: %s" % (d["path"], bad[0], bad[1]))
            else:
                ctx.ok(k + "/init")
    for a in W.facts["adts"]:
        if a.get("reach") and "send" in a:
            for q in ("send", "sync"):
                ctx.require("%s/%s" % (a["path"], q), bool(a[q]), a["path"], "%s is not %s: it cannot be shared between threads" % (a["path"], q.capitalize()))
    own = [u for u in W.facts["unsafes"] if not u[2]]
    ctx.info["public_functions"] = n
    ctx.info["call_graph_nodes"] = len(W.F)
    ctx.info["statics"] = len(W.facts["statics"])
    ctx.info["hand_written_unsafe_blocks"] = own
    ctx.info["once_users"] = len(once)
