"""Models (abstract transfer functions) of the std / dependency functions that cesride calls.

A model takes (I, mem, args, callee) and returns an abstract value, NEVER (diverges) or NotImplemented
(fall through to the function's MIR body, if there is one, or to an unknown call).
"""
import re as _re

from domain import (Agg, Alt, Bits, Ch, Chunk, Clo, FI, FnV, It, MapV, Obj, OneOf, Rat, Ref, S, Seq,
                    Sym, UNIT, V, b64dec, b64enc, chbits, hexbits, is7, ishex, is_top, join, mkbits, mkhex, sbytes, show, sstr, symbytes,
                    tobits, top)
from absint import NEVER, inexact

MODELS = {}
NI = NotImplemented


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


def ok(v=UNIT):
    return Agg(0, (v,))


def err(v):
    return Agg(1, (v,))


def maybe(v, e=None, oracle=None, mem=None):
    """Result that may be either; with an oracle term, both outcomes are known to be possible"""
    c = None
    if oracle is not None:
        pc = mem.get("#pc", ())
        if pc is not None:
            o = Sym(oracle)
            c = {0: pc + ((o, 1),), 1: pc + ((o, 0),), "J": pc}
    return Alt({0: (v,), 1: (e if e is not None else top("error"),)}, c)


def fallible(I, mem, kind, ins, v, e):
    """Result of an external operation that may fail for reasons outside the analysed code"""
    d = I.ext(kind, *ins)
    if d is True:
        return ok(v)
    if d is False:
        return err(e)
    if any(has_top(x) for x in ins if isinstance(x, V)):
        return maybe(v, e)
    return maybe(v, e, (kind,) + tuple(ins), mem)


def maybe_opt(v):
    return Alt({0: (), 1: (v,)})


def garg(I, c, i=0):
    a = c.get("a") or []
    if i < len(a) and isinstance(a[i], int):
        return I.T[a[i]]
    return {"k": "?", "s": "?"}


def tystrip(t):
    return t.get("path") or t.get("s", "?")


# ------------------------------------------------------------------ helpers on sequences
def asseq(I, v, mem):
    """value behind references as a Seq (opaque strings become a single chunk), OneOf of Seq, or None"""
    v = I.full(v, mem)
    t = type(v)
    if t is Seq:
        return v
    if t is Sym:
        if is_top(v):
            return Seq((Chunk(v.t),))
        return Seq((Chunk(v.t),))
    if t is OneOf and all(type(x) in (Seq, Sym) for x in v.vs):
        if all(type(x) is Seq for x in v.vs):
            return v
        return OneOf(tuple(x if type(x) is Seq else Seq((Chunk(x.t),)) for x in v.vs))
    if t is Agg and len(v.f) == 1:
        return asseq(I, v.f[0], mem)
    if t is OneOf:
        return Seq((Chunk(top(v).t),))
    return None


def overseq(I, v, mem, f):
    """apply f(Seq)->value to the sequence(s) denoted by v, joining"""
    s = asseq(I, v, mem)
    if s is None:
        return top(I.deep(v, mem))
    if type(s) is OneOf:
        r = None
        for x in s.vs:
            y = f(x)
            if y is NEVER:
                continue
            r = y if r is None else join(r, y)
        return NEVER if r is None else r
    return f(s)


def mutate(I, mem, ref, f):
    """replace the Seq behind ref by f(Seq)"""
    s = asseq(I, ref, mem)
    # find the innermost reference
    while type(ref) is Ref:
        v = I.load(ref, mem)
        if type(v) is Ref:
            ref = v
        else:
            break
    if s is None:
        I.store(ref, top(I.deep(ref, mem)), mem)
        return
    if type(s) is OneOf:
        r = None
        for x in s.vs:
            y = f(x)
            r = y if r is None else join(r, y)
        I.store(ref, r, mem)
    else:
        I.store(ref, f(s), mem)


def chunk_of(*vs):
    return Seq((Chunk(top(*vs).t),))


def is_boundary(s, i):
    """UTF-8 char boundary: True/False/None"""
    if i == 0 or i == len(s.e):
        return True
    if i > len(s.e):
        return False
    x = s.e[i]
    if type(x) is int:
        return not 0x80 <= x < 0xC0
    if type(x) is Ch or ishex(x):
        return True
    if type(x) is Bits:
        if x.b[7:8] == (0,) or (len(x.b) > 6 and x.b[6] == 1):
            return True
        if len(x.b) < 8:
            return True
    return None


def seqcat(*ss):
    e = ()
    for s in ss:
        e = e + s.e
    return Seq(e)


def eqv(I, a, b, mem, d=0):
    """structural equality: True / False / None"""
    a, b = I.full(a, mem), I.full(b, mem)
    ta, tb = type(a), type(b)
    if d > 12:
        return None
    if ta is OneOf or tb is OneOf:
        r = None
        for x in (a.vs if ta is OneOf else [a]):
            for y in (b.vs if tb is OneOf else [b]):
                e = eqv(I, x, y, mem, d + 1)
                if e is None:
                    return None
                if r is None:
                    r = e
                elif r != e:
                    return None
        return r
    if ta is Seq and tb is Seq:
        if not a.chunked and not b.chunked:
            if len(a.e) != len(b.e):
                return False
            r = True
            for x, y in zip(a.e, b.e):
                e = eqv(I, x, y, mem, d + 1)
                if e is False:
                    return False
                if e is None:
                    r = None
            return r
        if a == b and not any(type(x) is Chunk and isinstance(x.t, tuple) and len(x.t) == 2 and x.t[0] == "top" for x in a.e):
            return True
        # common exact prefix
        for x, y in zip(a.e, b.e):
            if type(x) is Chunk or type(y) is Chunk:
                break
            e = eqv(I, x, y, mem, d + 1)
            if e is False:
                return False
        for x, y in ((a, b), (b, a)):
            if x.chunked and not y.chunked and sum(1 for z in x.e if type(z) is not Chunk) > len(y.e):
                return False
        return None
    if ta is Agg and tb is Agg:
        if a.v != b.v:
            return False
        if len(a.f) != len(b.f):
            return None
        r = True
        for x, y in zip(a.f, b.f):
            e = eqv(I, x, y, mem, d + 1)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    if ta is Alt or tb is Alt:
        va = set(a.a) if ta is Alt else {a.v} if ta is Agg else None
        vb = set(b.a) if tb is Alt else {b.v} if tb is Agg else None
        if va and vb and not va & vb:
            return False
        return None
    if ta is Rat and tb is Rat:
        return a.q == b.q
    if ta is float and tb is float:
        return a == b
    if ta is Sym and tb is Sym:
        return True if a == b and not is_top(a) else I.eq(a, b)
    if ta in (int, Bits, Ch, Sym) and tb in (int, Bits, Ch, Sym):
        return I.eq(a, b)
    if ta is Obj and tb is Obj and a == b:
        return True
    if ta is MapV and tb is MapV and not a.open and not b.open:
        if [k for k, _ in a.items] != [k for k, _ in b.items]:
            if {k for k, _ in a.items} != {k for k, _ in b.items}:
                return False
            if len(a.items) != len(b.items) or not all(type(k) is Seq and not k.chunked and all(type(z) is int for z in k.e) for k, _ in a.items):
                return None
        o = dict(b.items)
        r = True
        for k, x in a.items:
            e = eqv(I, x, o[k], mem, d + 1)
            if e is False:
                return False
            if e is None:
                r = None
        return r
    return None


def boolv(I, op, a, b, mem):
    """equality test as an abstract bool"""
    e = eqv(I, a, b, mem)
    if e is not None:
        return int(e if op == "Eq" else not e)
    x, y = I.deep(a, mem), I.deep(b, mem)
    if has_top(x) or has_top(y):
        return top(x, y)
    x, y = I.tm(x), I.tm(y)
    t = ("Eq", x, y)
    r = I.ranges.get(t)
    if r is None:
        r = I.ranges.get(("Eq", y, x))
    if r is not None and r[0] == r[1]:
        return r[0] if op == "Eq" else 1 - r[0]
    return Sym((op, x, y))


def has_top(v, d=0):
    t = type(v)
    if t is Sym:
        return is_top(v)
    if t is Chunk:
        return isinstance(v.t, tuple) and len(v.t) == 2 and v.t[0] == "top"
    if t in (Agg, Clo, Obj):
        return any(has_top(x, d + 1) for x in v.f)
    if t is Seq:
        return any(type(x) is not int and has_top(x, d + 1) for x in v.e)
    if t is Alt:
        return True
    if t is Bits:
        return -1 in v.b
    if t in (int, Ch, float, Rat):
        return False
    if t is OneOf:
        return True
    if t is MapV:
        return v.open or any(has_top(x, d + 1) for _, x in v.items)
    return t is FI


# ------------------------------------------------------------------ identity-like
def ident(I, mem, args, c):
    return args[0]


for n in ("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::mem::ManuallyDrop::new",
          "alloc::string::String::as_str", "alloc::string::String::as_bytes", "core::str::<impl str>::as_bytes",
          "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "alloc::string::String::into_bytes",
          "core::slice::<impl [T]>::as_ref", "alloc::string::String::into_boxed_str", "alloc::str::<impl str>::into_string",
          "alloc::vec::Vec::into_boxed_slice", "alloc::slice::<impl [T]>::into_vec", "core::array::<impl [T; N]>::as_slice",
          "alloc::string::String::as_mut_str", "core::str::<impl str>::as_str", "core::str::<impl str>::as_bytes_mut",
          "core::ops::try_trait::Try::from_output_", "alloc::string::String::as_mut_string",
          "core::slice::<impl [T]>::as_slice", "core::pin::Pin::new", "alloc::rc::Rc::new_", "core::borrow::Borrow::borrow",
          "core::borrow::BorrowMut::borrow_mut", "core::array::<impl [T; N]>::as_mut_slice"):
    MODELS[n] = ident


@model("alloc::boxed::Box::new", "alloc::boxed::Box::pin")
def box_new(I, mem, args, c):
    return I.alloc(mem, args[0])


@model("alloc::boxed::Box::new_uninit")
def box_uninit(I, mem, args, c):
    return I.alloc(mem, top("uninit"))


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(I, mem, args, c):
    v = I.full(args[0], mem)
    while type(v) is Agg:  # MaybeUninit { value: ManuallyDrop { value } }
        live = [x for x in v.f if not is_top(x)]
        if len(live) != 1:
            return top(v)
        v = live[0]
    return v


@model("alloc::slice::<impl [T]>::to_vec", "alloc::borrow::ToOwned::to_owned", "alloc::slice::<impl [T]>::into_vec",
       "alloc::str::<impl str>::to_owned")
def to_vec(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Ref:
        return I.load(v, mem)
    return v


@model("core::clone::Clone::clone")
def clone(I, mem, args, c):
    v = I.load(args[0], mem)
    t = garg(I, c)
    if t["k"] == "ref":
        return v
    if inside(I, t, "core::clone::Clone"):
        r = typedclone(I, mem, t, v)
        if r is None:
            I.note("copy of values with hand-written copying inside")
            return top(I.deep(v, mem))
        return r
    if type(v) is Ref and t["k"] == "adt" and "Box" in t.get("path", ""):
        return I.alloc(mem, I.load(v, mem))
    return v


def typedclone(I, mem, t, v, d=0):
    if d > 8:
        return None
    if t["k"] == "ref" or not inside(I, t, "core::clone::Clone"):
        return v

    def each(ts, xs):
        r = tuple(typedclone(I, mem, I.T[ti], x, d + 1) for ti, x in zip(ts, xs))
        return None if any(x is None for x in r) else r
    k = t["k"]
    args = [x for x in t.get("args") or [] if isinstance(x, int)]
    if k == "adt":
        w = written(I, "core::clone::Clone").get(t.get("path"))
        if w is not None and "clone" in w[1]:
            return I.call(w[1]["clone"], [I.alloc(mem, v)], mem)
        if t.get("path") == "core::option::Option" and type(v) is Agg:
            f = each(args * len(v.f), v.f)
            return None if f is None else Agg(v.v, f)
        if t.get("path") == "alloc::boxed::Box" and type(v) is Ref:
            f = typedclone(I, mem, I.T[args[0]], I.load(v, mem), d + 1)
            return None if f is None else I.alloc(mem, f)
    if k == "array" or (k == "adt" and t.get("path") == "alloc::vec::Vec"):
        ti = t["t"] if k != "adt" else args[0]
        x = asseq(I, v, mem)
        if type(x) is Seq and not x.chunked:
            f = each([ti] * len(x.e), x.e)
            return None if f is None else Seq(f)
    if k == "tuple" and type(v) is Agg:
        f = each(t["ts"], v.f)
        return None if f is None else Agg(v.v, f)
    return None


@model("core::clone::Clone::clone_from")
def clone_from(I, mem, args, c):
    I.store(args[0], I.load(args[1], mem), mem)
    return UNIT


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def deref(I, mem, args, c):
    p = tystrip(garg(I, c))
    if p in ("alloc::string::String", "alloc::vec::Vec"):
        return args[0]
    if p == "zeroize::Zeroizing":
        a = args[0]
        if type(a) is Ref:
            return Ref(a.b, a.p + (0,))
        b, pp = I.deref(a, mem)
        return Ref(b, pp + (0,))
    if p == "alloc::boxed::Box":
        return I.load(args[0], mem)
    if p == "alloc::borrow::Cow":
        v = I.load(args[0], mem)
        if type(v) is Agg:
            if v.v == 0:
                return v.f[0]
            b, pp = I.deref(args[0], mem)
            return Ref(b, pp + (("d", 1), 0))
        return I.alloc(mem, cow_value(I, v, mem))
    if p in ("core::mem::ManuallyDrop", "core::pin::Pin", "generic_array::GenericArray", "hybrid_array::Array"):
        return args[0]
    return NI


def cow_value(I, v, mem):
    if type(v) is Agg:
        return I.full(v.f[0], mem)
    if type(v) is Alt:
        r = None
        for f in v.a.values():
            x = I.full(f[0], mem)
            r = x if r is None else join(r, x)
        return r
    return I.full(v, mem)


@model("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut")
def as_ref(I, mem, args, c):
    t = garg(I, c)
    while t["k"] == "ref":
        t = I.T[t["t"]]
        if type(args[0]) is Ref:
            args = [I.load(args[0], mem)]
    p = tystrip(t)
    if p in ("alloc::string::String", "alloc::vec::Vec") or t["k"] in ("str", "slice", "array"):
        return args[0]
    if p == "zeroize::Zeroizing":
        b, pp = I.deref(args[0], mem)
        return Ref(b, pp + (0,))
    if p in ("generic_array::GenericArray", "hybrid_array::Array"):
        return args[0]
    if p == "ed25519_dalek::verifying::VerifyingKey":
        x = I.full(args[0], mem)
        if type(x) is Obj and x.k == "vk":
            return I.const_ref(x.f[1])
    return NI


@model("core::convert::From::from")
def from_(I, mem, args, c):
    dst, src = garg(I, c, 0), garg(I, c, 1)
    return conv(I, mem, args[0], src, dst)


@model("core::convert::Into::into")
def into(I, mem, args, c):
    src, dst = garg(I, c, 0), garg(I, c, 1)
    r = conv(I, mem, args[0], src, dst)
    return r


def conv(I, mem, v, src, dst):
    if src["s"] == dst["s"]:
        return v
    p = tystrip(dst)
    if p == "anyhow::Error":
        return Obj("anyhow", I.deep(v, mem))
    if p == "alloc::boxed::Box":
        return I.alloc(mem, v)
    if dst["k"] in ("uint", "int", "char") and src["k"] in ("uint", "int", "char", "bool"):
        di = dst["ix"]
        si = src["ix"]
        return I.cast_int(v, di, si)
    if dst["k"] == "float":
        return I.to_float(v, dst["ix"], src["ix"]) if src["k"] in ("uint", "int") else v
    if p == "alloc::string::String" or p == "alloc::vec::Vec":
        if src["k"] == "char":
            return char_seq(v)
        x = I.full(v, mem)
        if p.endswith("Vec") or type(x) in (Seq, Sym, OneOf):
            if type(x) is Agg:
                return NI
            return x
        return NI
    if p == "alloc::borrow::Cow":
        if src["k"] == "ref":
            return Agg(0, (v,))
        return Agg(1, (v,))
    if p in ("core::option::Option",):
        return some(v)
    if p in ("zeroize::Zeroizing",):
        return Agg(0, (v,))
    if p in ("ed25519_dalek::verifying::VerifyingKey", "ecdsa::verifying::VerifyingKey"):
        x = I.full(v, mem)
        if type(x) is Obj and x.k == "sk":
            return vk_of(x)
    if dst["k"] == "array":
        x = I.full(v, mem)
        if type(x) is Obj and x.k == "digest":
            return x.f[0]
        if type(x) is Seq and not x.chunked and len(x.e) == dst.get("len") and "Array" in src["s"]:
            return x
    if p == "ed25519_dalek::signing::SigningKey":
        x = asseq(I, v, mem)
        if type(x) is Seq:
            return Obj("sk", S("ed25519"), x)
    return NI


def vk_of(x):
    cv = sstr(x.f[0])
    return Obj("vk", x.f[0], uninterp("pub_" + (cv or "?"), 32 if cv == "ed25519" else 33, x.f[1]))


@model("core::fmt::Debug::fmt_", "core::ops::drop::Drop::drop", "core::mem::drop", "core::mem::forget", "alloc::vec::Vec::reserve",
       "alloc::string::String::reserve", "alloc::vec::Vec::shrink_to_fit", "alloc::string::String::shrink_to_fit",
       "core::sync::atomic::compiler_fence", "core::sync::atomic::fence", "core::intrinsics::cold_path",
       "core::ub_checks::check_language_ub")
def unit(I, mem, args, c):
    if I.drops is not None and c.get("path", "").endswith("mem::drop"):
        fn, sp = I.cur()
        I.drops.append((fn, garg(I, c)["s"], args[0], mem.get("#pc", ())))
    return UNIT


@model("core::mem::take")
def mem_take(I, mem, args, c):
    v = I.load(args[0], mem)
    t = garg(I, c)
    p = tystrip(t)
    if p in ("alloc::string::String", "alloc::vec::Vec"):
        I.store(args[0], Seq(()), mem)
    elif p == "core::option::Option":
        I.store(args[0], NONE, mem)
    elif t["k"] in ("uint", "int", "bool"):
        I.store(args[0], 0, mem)
    elif "IndexMap" in p or "HashMap" in p:
        I.store(args[0], MapV(()), mem)
    else:
        I.store(args[0], Sym(("default", t["s"])), mem)
    return v


@model("core::mem::replace")
def mem_replace(I, mem, args, c):
    v = I.load(args[0], mem)
    I.store(args[0], args[1], mem)
    return v


@model("core::mem::swap")
def mem_swap(I, mem, args, c):
    a, b = I.load(args[0], mem), I.load(args[1], mem)
    I.store(args[0], b, mem)
    I.store(args[1], a, mem)
    return UNIT


@model("core::default::Default::default")
def default(I, mem, args, c):
    t = garg(I, c)
    p = tystrip(t)
    if p in ("alloc::string::String", "alloc::vec::Vec"):
        return Seq(())
    if p == "core::option::Option":
        return NONE
    if t["k"] in ("uint", "int", "bool", "char"):
        return 0
    if t["k"] == "float":
        return 0.0
    if t["k"] == "tuple" and not t["ts"]:
        return UNIT
    if t["k"] == "ref":
        return I.const_ref(Seq(()))
    if p == "blake3::Hasher" or p.startswith("digest::") and hasher_kind(t["s"]):
        return Obj("hasher", S("blake3" if p == "blake3::Hasher" else t["s"]), Seq(()))
    if "Map" in p:
        return MapV(())
    return NI


# ------------------------------------------------------------------ Option / Result fast paths
@model("core::ops::try_trait::Try::branch")
def try_branch(I, mem, args, c):
    v = args[0]
    p = tystrip(garg(I, c))
    if p == "core::result::Result":
        if type(v) is Agg:
            return Agg(0, v.f) if v.v == 0 else Agg(1, (v,))
        if type(v) is Alt:
            return Alt({0: v.a[0], 1: (Agg(1, v.a[1]),)}, v.c)
        if type(v) is Sym:
            if is_top(v):
                return Alt({0: (v,), 1: (Agg(1, (v,)),)})
            return Alt({0: (Sym(("f", 0, ("d", 0, v.t))),), 1: (Agg(1, (Sym(("f", 0, ("d", 1, v.t))),)),)})
    if p == "core::option::Option":
        if type(v) is Agg:
            return Agg(0, v.f) if v.v == 1 else Agg(1, (v,))
        if type(v) is Alt:
            return Alt({0: v.a[1], 1: (Agg(0, ()),)}, None if not v.c else {0: v.c.get(1), 1: v.c.get(0), "J": v.c.get("J")})
    return NI


@model("core::option::Option::unwrap", "core::option::Option::expect")
def opt_unwrap(I, mem, args, c):
    return unwrap(I, mem, args[0], 1, "unwrap on None")


@model("core::result::Result::unwrap", "core::result::Result::expect")
def res_unwrap(I, mem, args, c):
    return unwrap(I, mem, args[0], 0, "unwrap on Err")


def unwrap(I, mem, v, good, msg):
    if type(v) is Agg:
        if v.v == good:
            return v.f[0]
        return I.panic(msg, mem)
    if type(v) is Alt:
        I.maypanic(msg, mem)
        return v.a[good][0]
    I.maypanic(msg, mem)
    if type(v) is Sym and not is_top(v):
        return Sym(("f", 0, ("d", good, v.t)))
    return top(v)


@model("core::option::Option::is_some")
def is_some(I, mem, args, c):
    return isvar(I, mem, args[0], 1)


@model("core::option::Option::is_none", "core::result::Result::is_ok")
def is_none(I, mem, args, c):
    return isvar(I, mem, args[0], 0)


@model("core::result::Result::is_err")
def is_err(I, mem, args, c):
    return isvar(I, mem, args[0], 1)


def isvar(I, mem, r, k):
    v = I.full(r, mem)
    if type(v) is Agg:
        return int(v.v == k)
    if type(v) is Sym and not is_top(v):
        return Sym(("isvar", k, v.t))
    return top(v)


@model("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref", "core::option::Option::as_deref_mut")
def opt_as_ref(I, mem, args, c):
    if "as_deref" in c["p"] and garg(I, c).get("local"):
        return NI       # the type's own Deref decides
    b, p = I.deref(args[0], mem)
    v = I.read(b, p, mem)
    if type(v) is Agg:
        return NONE if v.v == 0 else some(Ref(b, p + (("d", 1), 0)))
    if type(v) is Alt:
        return Alt({0: (), 1: (Ref(b, p + (("d", 1), 0)),)})
    if type(v) is Sym and not is_top(v):
        return Alt({0: (), 1: (I.alloc(mem, Sym(("f", 0, ("d", 1, v.t)))),)})
    return Alt({0: (), 1: (I.alloc(mem, top(v)),)})


@model("core::option::Option::cloned", "core::option::Option::copied")
def opt_cloned(I, mem, args, c):
    v = args[0]
    if type(v) is Agg:
        return NONE if v.v == 0 else some(I.load(v.f[0], mem))
    if type(v) is Alt:
        return Alt({0: (), 1: (I.load(v.a[1][0], mem),)})
    return v


# ------------------------------------------------------------------ integers
def ity(I, c, path=None):
    return None


def width_of(path):
    m = _re.search(r"<impl ([iu])(\d+|size)>", path)
    if not m:
        return None
    w = 64 if m.group(2) == "size" else int(m.group(2))
    return w, m.group(1) == "i"


def intmodel(name):
    def d(f):
        for s in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
            def g(I, mem, args, c, s=s):
                w = 64 if s.endswith("size") else int(s[1:])
                return f(I, mem, args, w, s[0] == "i")
            MODELS["core::num::<impl %s>::%s" % (s, name)] = g
        return f
    return d


def tyidx(I, w, signed):
    k = ("tyidx", w, signed)
    r = I.facts.setdefault("_ty", {}).get(k)
    if r is None:
        for i, t in enumerate(I.T):
            if t["k"] == ("int" if signed else "uint") and t.get("bits") == w:
                r = i
                break
        else:
            I.T.append({"k": "int" if signed else "uint", "bits": w, "s": ("i" if signed else "u") + str(w), "ix": len(I.T)})
            r = len(I.T) - 1
        I.facts["_ty"][k] = r
    return r


@intmodel("pow")
def ipow(I, mem, args, w, signed):
    a, b = args
    if type(a) is int and type(b) is int:
        if b > 256 and abs(a) > 1:
            I.panic("attempt to multiply with overflow (pow)", mem)
            return NEVER
        r = a ** b
        m = (1 << w) - 1
        lim = (1 << (w - 1)) - 1 if signed else m
        if r > lim:
            I.panic("attempt to multiply with overflow (pow)", mem)
            return NEVER
        return r
    if type(b) is OneOf and type(a) is int:
        r = None
        for x in b.vs:
            if type(x) is int and x > 256:
                # only some of the values overflow: not certain
                I.maypanic("attempt to multiply with overflow (pow)", mem)
                continue
            y = ipow(I, mem, [a, x], w, signed)
            if y is not NEVER:
                r = y if r is None else join(r, y)
        return NEVER if r is None else r
    rb = I.rng(b)
    lim = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
    if not (type(a) is int and rb and rb[1] < 4096 and a ** rb[1] <= lim):
        I.maypanic("pow overflow", mem)
    return top(a, b)


@intmodel("to_be_bytes")
def to_be(I, mem, args, w, signed):
    return Seq(tuple(reversed(le_bytes(I, args[0], w))))


@intmodel("to_le_bytes")
def to_le(I, mem, args, w, signed):
    return Seq(tuple(le_bytes(I, args[0], w)))


def le_bytes(I, v, w):
    b = tobits(v, w)
    if b is None:
        if type(v) is Sym and not is_top(v):
            b = tobits(symint(I, v, w), w)
        else:
            return [top(v)] * (w // 8)
    return [mkbits(b[8 * i:8 * i + 8]) for i in range(w // 8)]


def symint(I, v, w):
    from domain import symbit
    r = I.rng(v)
    n = w
    if r and r[0] >= 0:
        n = min(w, max(r[1].bit_length(), 0))
    return mkbits(tuple(symbit(v.t, i) if i < n else 0 for i in range(w)))


@intmodel("from_be_bytes")
def from_be(I, mem, args, w, signed):
    s = asseq(I, args[0], mem)
    return from_bytes(I, list(reversed(s.e)) if type(s) is Seq and not s.chunked else None, w, signed, s)


@intmodel("from_le_bytes")
def from_le(I, mem, args, w, signed):
    s = asseq(I, args[0], mem)
    return from_bytes(I, list(s.e) if type(s) is Seq and not s.chunked else None, w, signed, s)


def from_bytes(I, e, w, signed, s):
    if e is None:
        return top(s)
    bits = ()
    for x in e:
        b = tobits(x, 8)
        if b is None:
            return top(s)
        bits += b
    v = mkbits(bits[:w])
    if type(v) is int and signed and v >> (w - 1):
        v -= 1 << w
    return v


def arith(op):
    def chk(I, mem, args, w, signed):
        v, of = I.binop(op, args[0], args[1], tyidx(I, w, signed))
        if op in ("Div", "Rem"):
            z = I.eq(args[1], 0)
            of = 1 if z is True else 0 if z is False else None
        if of == 0:
            return some(v)
        if of == 1:
            return NONE
        return maybe_opt(v)

    def wrp(I, mem, args, w, signed):
        v, of = I.binop(op, args[0], args[1], tyidx(I, w, signed))
        return v

    def sat(I, mem, args, w, signed):
        v, of = I.binop(op, args[0], args[1], tyidx(I, w, signed))
        if of == 0:
            return v
        if of == 1 and not signed:
            return 0 if op == "Sub" else (1 << w) - 1
        if of is None and not signed and op == "Sub":
            return top(*args)
        return top(*args)

    def ovf(I, mem, args, w, signed):
        v, of = I.binop(op, args[0], args[1], tyidx(I, w, signed))
        return Agg(0, (v, of if of is not None else top(*args)))
    n = op.lower()
    intmodel("checked_" + n)(chk)
    intmodel("wrapping_" + n)(wrp)
    intmodel("saturating_" + n)(sat)
    intmodel("overflowing_" + n)(ovf)


for _o in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"):
    arith(_o)


@intmodel("checked_pow")
def cpow(I, mem, args, w, signed):
    a, b = args
    if type(a) is int and type(b) is int:
        r = a ** b
        lim = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        return some(r) if r <= lim else NONE
    return maybe_opt(top(a, b))


@intmodel("abs_diff")
def absdiff(I, mem, args, w, signed):
    if type(args[0]) is int and type(args[1]) is int:
        return abs(args[0] - args[1])
    return top(*args)


@intmodel("div_ceil")
def div_ceil(I, mem, args, w, signed):
    if type(args[0]) is int and type(args[1]) is int and args[1]:
        return -(-args[0] // args[1])
    return top(*args)


@intmodel("leading_zeros")
def lz(I, mem, args, w, signed):
    if type(args[0]) is int and args[0] >= 0:
        return w - args[0].bit_length()
    r = I.rng(args[0])
    if r and r[0] >= 0 and r[0].bit_length() == r[1].bit_length():
        return w - r[0].bit_length()
    return top(*args)


@intmodel("is_power_of_two")
def ispow2(I, mem, args, w, signed):
    if type(args[0]) is int:
        return int(args[0] > 0 and args[0] & (args[0] - 1) == 0)
    return top(*args)


@intmodel("from_str_radix")
def from_str_radix(I, mem, args, w, signed):
    radix = args[1]

    def f(s):
        t = sstr(s)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if t is not None and type(radix) is int:
            pat = r"[+-]?[0-9a-zA-Z]+" if signed else r"\+?[0-9a-zA-Z]+"
            if not _re.fullmatch(pat, t) or any(int(q, 36) >= radix for q in t.lstrip("+-")):
                return err(S("parse int error"))
            try:
                x = int(t, radix)
            except ValueError:
                return err(S("parse int error"))
            return ok(x) if lo <= x <= hi else err(S("parse int error"))
        if radix == 16 and type(s) is Seq and not s.chunked and s.e:
            hb = [hexbits(x) for x in s.e]
            if all(h is not None for h in hb):
                bits = [b for h in reversed(hb) for b in h]
                while bits and bits[-1] == 0:
                    bits.pop()
                if len(bits) <= (w - 1 if signed else w):
                    return ok(mkbits(tuple(bits) + (0,) * (w - len(bits))))
                if bits[-1] == 1:
                    return err(S("parse int error"))
        return maybe(Sym(("parseint", radix, s)) if not has_top(s) else top(s))
    return overseq(I, args[0], mem, f)


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def try_conv(I, mem, args, c):
    if c["p"].endswith("try_into"):
        src, dst = garg(I, c, 0), garg(I, c, 1)
    else:
        dst, src = garg(I, c, 0), garg(I, c, 1)
    v = args[0]
    if dst["k"] in ("uint", "int") and src["k"] in ("uint", "int"):
        r = I.rng(v, src["ix"])
        w = dst["bits"]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if dst["k"] == "int" else (0, (1 << w) - 1)
        cv = I.cast_int(v, dst["ix"], src["ix"])
        if r and r[0] >= lo and r[1] <= hi:
            return ok(cv)
        if r and (r[1] < lo or r[0] > hi):
            return err(S("out of range"))
        return maybe(cv)
    if dst["k"] == "array":
        n = dst.get("len")
        s = asseq(I, v, mem)
        if type(s) is Seq and not s.chunked and n is not None:
            return ok(s) if len(s.e) == n else err(S("slice error"))
        if type(s) is Seq and n is not None:
            return maybe(Sym(("array", n, s)))
        return maybe(top(I.deep(v, mem)))
    if dst["k"] == "ref" and I.T[dst["t"]]["k"] == "array":
        n = I.T[dst["t"]].get("len")
        s = asseq(I, v, mem)
        if type(s) is Seq and not s.chunked and n is not None:
            return ok(v) if len(s.e) == n else err(S("slice error"))
        return maybe(v)
    p = tystrip(dst)
    if p == "ecdsa::Signature":
        s = S_(I, v, mem)
        cv = "secp256k1" if "k256" in dst["s"] or "Secp256k1" in dst["s"] else "p256"
        return fallible(I, mem, "sig", (cv, s), Obj("sig", S(cv), s), S("invalid signature"))
    if p.endswith("::SigningKey") or p.endswith("::VerifyingKey") or p == "ed25519::Signature":
        s = S_(I, v, mem)
        if not p.startswith("ecdsa"):
            if type(s) is not Seq or s.chunked:
                return NI
            if len(s.e) != (64 if p == "ed25519::Signature" else 32):
                return err(S("bytes length"))
            if p == "ed25519::Signature":
                return ok(Obj("sig", S("ed25519"), s))
            if p.endswith("SigningKey"):
                return ok(Obj("sk", S("ed25519"), s))
        cv = "ed25519" if not p.startswith("ecdsa") else "secp256k1" if "k256" in dst["s"] or "Secp256k1" in dst["s"] else "p256"
        k = "sk" if p.endswith("SigningKey") else "vk"
        return fallible(I, mem, k, (cv, s), Obj(k, S(cv), s), S("invalid key"))
    if dst["k"] == "char":
        return maybe(v)
    return NI


# ------------------------------------------------------------------ floats
@model("std::f32::<impl f32>::log2", "std::num::f32::<impl f32>::log2")
def log2(I, mem, args, c):
    """log2f, assumed faithfully rounded: the result is one of the two floats around the exact value"""
    import math
    import struct
    v = args[0]

    def near(x):
        if x < 0 or x != x:
            return float("nan"), float("nan")
        if x == 0:
            return float("-inf"), float("-inf")
        m, e = math.frexp(x)
        if m == 0.5:
            return float(e - 1), float(e - 1)
        y = math.log2(x)
        n = struct.unpack("f", struct.pack("f", y))[0]
        b = struct.unpack("I", struct.pack("f", n))[0]

        def up(k):
            if n == 0:
                return n
            return struct.unpack("f", struct.pack("I", b + k if n > 0 else b - k))[0]
        if n == y:
            return up(-1), up(1)
        return (n, up(1)) if n < y else (up(-1), n)
    if type(v) is float:
        lo, hi = near(v)
        return lo if lo == hi or lo != lo else FI(lo, hi)
    if type(v) is FI and v.lo >= 0:
        return FI(near(v.lo)[0], near(v.hi)[1])
    return top(v, "float")


def written(I, trait):
    """path of each type of the crate whose implementation of `trait` for itself is hand-written -> its methods"""
    key = "_written " + trait
    d = I.facts.get(key)
    if d is None:
        d = I.facts[key] = {}
        for im in I.facts["impls"]:
            if im.get("trait") == trait:
                ta = im.get("trait_args") or []
                own = len(ta) < 2 or ta[0] == ta[1]
                if own:
                    d[im["self"]] = (bool(im.get("derived")), dict((x[0], x[1]) for x in im.get("methods") or []))
    return d


def inside(I, t, trait, seen=None):
    """does a value of type t contain (or refer to) one whose implementation of `trait` is hand-written?"""
    w = written(I, trait)
    cache = I.facts.setdefault("_inside " + trait, {})
    if not any(not v[0] for v in w.values()):
        return False
    k0 = t.get("s")
    if k0 in cache:
        return cache[k0]
    seen = seen or set()
    if k0 in seen:
        return False
    seen.add(k0)
    r = False
    k = t["k"]
    if k == "adt":
        p = t.get("path")
        if t.get("local") and p in w and not w[p][0]:
            r = True
        else:
            r = any(isinstance(a, int) and inside(I, I.T[a], trait, seen) for a in t.get("args") or [])
            if not r and t.get("local"):
                r = any(f["t"] is not None and inside(I, I.T[f["t"]], trait, seen) for v in t.get("vs") or [] for f in v["f"])
    elif k in ("ref", "array", "slice"):
        r = inside(I, I.T[t["t"]], trait, seen)
    elif k == "tuple":
        r = any(inside(I, I.T[x], trait, seen) for x in t["ts"])
    if len(seen) == 1 or r:
        cache[k0] = r
    return r


def typedeq(I, mem, t, a, b, d=0):
    """equality of two values behind references, following the implementations of their types; None: unknown"""
    if d > 8:
        return None
    if not inside(I, t, "core::cmp::PartialEq"):
        return boolv(I, "Eq", a, b, mem)
    k = t["k"]
    if k == "ref":
        return typedeq(I, mem, I.T[t["t"]], I.load(a, mem), I.load(b, mem), d + 1)
    a1, b1 = I.load(a, mem), I.load(b, mem)

    def each(ts, xs, ys):
        r = 1
        for ti, x, y in zip(ts, xs, ys):
            e = typedeq(I, mem, I.T[ti], I.alloc(mem, x), I.alloc(mem, y), d + 1)
            if e == 0 and type(e) is int:
                return 0
            if type(e) is not int:
                r = None
        return r
    if k == "adt":
        w = written(I, "core::cmp::PartialEq").get(t.get("path"))
        if w is not None and "eq" in w[1]:
            return I.call(w[1]["eq"], [a, b], mem)
        args = [x for x in t.get("args") or [] if isinstance(x, int)]
        if t.get("path") == "core::option::Option" and type(a1) is Agg and type(b1) is Agg:
            return 0 if a1.v != b1.v else each(args * len(a1.f), a1.f, b1.f)
        if t.get("path") == "alloc::boxed::Box" and type(a1) is Ref and type(b1) is Ref:
            return typedeq(I, mem, I.T[args[0]], a1, b1, d + 1)
    if k in ("array", "slice") or (k == "adt" and t.get("path") == "alloc::vec::Vec"):
        ti = t["t"] if k != "adt" else args[0]
        x, y = asseq(I, a1, mem), asseq(I, b1, mem)
        if type(x) is Seq and type(y) is Seq and not x.chunked and not y.chunked:
            return 0 if len(x.e) != len(y.e) else each([ti] * len(x.e), x.e, y.e)
    if k == "tuple" and type(a1) is Agg and type(b1) is Agg:
        return each(t["ts"], a1.f, b1.f)
    return None


def handwritten(I, mem, args, c, neg=False):
    t = garg(I, c)
    if len(args) != 2 or not inside(I, t, "core::cmp::PartialEq"):
        return None
    r = typedeq(I, mem, t, args[0], args[1])
    if r is None:
        I.note("equality of values with hand-written equality inside")
        return top(I.deep(args[0], mem), I.deep(args[1], mem))
    if neg:
        return 1 - r if type(r) is int else Sym(("Not", r.t)) if type(r) is Sym and not is_top(r) else top(r)
    return r


@model("core::cmp::PartialEq::eq")
def peq(I, mem, args, c):
    t = garg(I, c)
    if t["k"] == "adt" and t.get("local"):
        return NI
    r = handwritten(I, mem, args, c)
    if r is not None:
        return r
    if t["k"] == "adt" and t.get("path") in ("core::option::Option", "alloc::vec::Vec") and localinside(I, t):
        return NI if t.get("path") == "core::option::Option" else boolv(I, "Eq", args[0], args[1], mem)
    return boolv(I, "Eq", args[0], args[1], mem)


def localinside(I, t):
    for a in t.get("args", []) or []:
        if isinstance(a, int) and I.T[a].get("local"):
            return True
    return False


@model("core::cmp::PartialEq::ne")
def pne(I, mem, args, c):
    t = garg(I, c)
    if t["k"] == "adt" and t.get("local"):
        return NI
    r = handwritten(I, mem, args, c, True)
    if r is not None:
        return r
    return boolv(I, "Ne", args[0], args[1], mem)


def lexi(I, mem, a, b, d=0):
    """derived order of concrete values: -1, 0, 1, or None"""
    a, b = I.full(a, mem), I.full(b, mem)
    if d > 8:
        return None
    ta, tb = type(a), type(b)
    if ta in (int, float) and tb is ta:
        return (a > b) - (a < b) if a == a and b == b else None
    if ta is Rat and tb is Rat:
        return (a.q > b.q) - (a.q < b.q)
    if ta is Agg and tb is Agg:
        if a.v != b.v:
            return (a.v > b.v) - (a.v < b.v)
        if len(a.f) != len(b.f):
            return None
        xs, ys = a.f, b.f
    elif ta is Seq and tb is Seq and not a.chunked and not b.chunked:
        xs, ys = a.e, b.e
    else:
        return None
    for x, y in zip(xs, ys):
        o = lexi(I, mem, x, y, d + 1)
        if o is None or o:
            return o
    return (len(xs) > len(ys)) - (len(xs) < len(ys))


def ordm(op):
    def m(I, mem, args, c):
        a, b = I.full(args[0], mem), I.full(args[1], mem)
        if type(a) is Rat and type(b) is Rat:
            return int({"Lt": a.q < b.q, "Le": a.q <= b.q, "Gt": a.q > b.q, "Ge": a.q >= b.q}[op])
        if type(a) in (int, Bits, Ch) and type(b) in (int, Bits, Ch):
            t = garg(I, c)
            while t["k"] == "ref":
                t = I.T[t["t"]]
            ti = t["ix"] if t["k"] in ("int", "uint", "char", "bool") else tyidx(I, 64, False)
            return I.cmp(op, a, b, ti)
        if type(a) is float and type(b) is float:
            return int({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        x, y = sbytes(a), sbytes(b)
        if x is None or y is None:
            o = lexi(I, mem, a, b)
            if o is not None:
                return int({"Lt": o < 0, "Le": o <= 0, "Gt": o > 0, "Ge": o >= 0}[op])
        if x is not None and y is not None:
            return int({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if type(a) is Sym and type(b) is Sym or type(a) is int or type(b) is int:
            t = garg(I, c)
            while t["k"] == "ref":
                t = I.T[t["t"]]
            if t["k"] in ("int", "uint", "char", "bool"):
                return I.cmp(op, a, b, t["ix"])
        if has_top(a) or has_top(b):
            return top(a, b)
        return Sym((op, I.tm(a), I.tm(b)))
    return m


MODELS["core::cmp::PartialOrd::lt"] = ordm("Lt")
MODELS["core::cmp::PartialOrd::le"] = ordm("Le")
MODELS["core::cmp::PartialOrd::gt"] = ordm("Gt")
MODELS["core::cmp::PartialOrd::ge"] = ordm("Ge")


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ord_cmp(I, mem, args, c):
    if any(inside(I, garg(I, c), "core::cmp::" + x) for x in ("Ord", "PartialOrd", "PartialEq")):
        I.note("order of values with hand-written order inside")
    lt = ordm("Lt")(I, mem, args, c)
    e = eqv(I, args[0], args[1], mem)
    if e is True:
        r = Agg(1, ())
    elif lt == 1:
        r = Agg(0, ())
    elif lt == 0 and e is False:
        r = Agg(2, ())
    elif lt == 0:
        r = Alt({1: (), 2: ()})
    else:
        r = Alt({0: (), 1: (), 2: ()})
    return some(r) if c["p"].endswith("partial_cmp") else r


@model("core::cmp::Ord::max", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::min")
def ord_max(I, mem, args, c):
    a, b = args
    ismax = c["p"].endswith("max")
    if type(a) is int and type(b) is int:
        return max(a, b) if ismax else min(a, b)
    if type(a) is Rat and type(b) is Rat:
        return Rat(max(a.q, b.q)) if ismax else Rat(min(a.q, b.q))
    ra, rb = I.rng(a), I.rng(b)
    if ra and rb:
        if ra[0] >= rb[1]:
            return a if ismax else b
        if rb[0] >= ra[1]:
            return b if ismax else a
    return top(a, b)


# ------------------------------------------------------------------ sequences
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity")
def seq_new(I, mem, args, c):
    return Seq(())


@model("alloc::vec::from_elem")
def from_elem(I, mem, args, c):
    n = args[1]
    if type(n) is int:
        if n > 4000000:
            return Seq((Chunk(("repeat", n), args[0]),))
        return Seq((args[0],) * n)
    if type(n) is OneOf and all(type(x) is int for x in n.vs):
        r = None
        for x in n.vs:
            y = Seq((args[0],) * x)
            r = y if r is None else join(r, y)
        return r
    return Seq((Chunk(("repeat", I.tm(I.deep(args[0], mem)), I.tm(n)) if not is_top(n) else top(n).t, args[0]),))


def lenm(I, mem, args, c):
    v = I.full(args[0], mem)
    return I.seqlen(v)


for n in ("alloc::vec::Vec::len", "alloc::string::String::len", "core::str::<impl str>::len", "core::slice::<impl [T]>::len",
          "indexmap::map::IndexMap::len", "std::collections::hash::map::HashMap::len", "serde_json::map::Map::len"):
    MODELS[n] = lenm


def emptym(I, mem, args, c):
    v = I.full(args[0], mem)
    n = I.seqlen(v)
    if type(n) is int:
        return int(n == 0)
    if type(v) is Seq and any(type(x) is not Chunk for x in v.e):
        return 0
    r = I.rng(n)
    if r and r[0] > 0:
        return 0
    if type(n) is Sym and not is_top(n):
        return I.cterm("Eq", n, 0)
    if type(n) is OneOf:
        s = {int(x == 0) for x in n.vs if type(x) is int}
        if len(s) == 1 and all(type(x) is int for x in n.vs):
            return s.pop()
        if all(type(x) is int for x in n.vs):
            return OneOf((0, 1))
    return top(v)


for n in ("alloc::vec::Vec::is_empty", "alloc::string::String::is_empty", "core::str::<impl str>::is_empty",
          "core::slice::<impl [T]>::is_empty", "indexmap::map::IndexMap::is_empty", "std::collections::hash::map::HashMap::is_empty"):
    MODELS[n] = emptym


def range_bounds(I, rng, tname, mem):
    """(start, end|None) of a range value; ends may be abstract"""
    rng = I.full(rng, mem) if type(rng) is Ref else rng
    if "RangeFull" in tname:
        return 0, None
    if type(rng) is not Agg:
        return None
    if "RangeFrom" in tname:
        return rng.f[0], None
    if "RangeToInclusive" in tname:
        e = rng.f[0]
        return 0, (e + 1 if type(e) is int else top(e))
    if "RangeTo" in tname:
        return 0, rng.f[0]
    if "RangeInclusive" in tname:
        e = rng.f[1]
        return rng.f[0], (e + 1 if type(e) is int else top(e))
    return rng.f[0], rng.f[1]


def slice_ref(I, mem, base, rng, tname, isstr, panics=True):
    """reference to a sub-slice; NEVER/None when out of bounds"""
    bb = range_bounds(I, rng, tname, mem)
    # innermost reference to the sequence
    r = base
    n = 0
    while type(r) is Ref and n < 6:
        v = I.load(r, mem)
        if type(v) in (Ref,):
            r = v
            n += 1
        else:
            break
    if type(r) is not Ref:
        b, p = I.deref(r, mem)
        r = Ref(b, p)
    v = I.load(r, mem)

    def unknown(msg):
        if panics:
            I.maypanic(msg, mem)
        return None

    if bb is None:
        unknown("slice index")
        return I.alloc(mem, chunk_of(I.deep(v, mem)))
    a, b = bb
    if type(a) is OneOf or type(b) is OneOf:
        rs = None
        bad = 0
        tot = 0
        for x in (a.vs if type(a) is OneOf else [a]):
            for y in (b.vs if type(b) is OneOf else [b]):
                if type(x) is not int or (y is not None and type(y) is not int):
                    rs = None
                    bad = tot = 1
                    break
                tot += 1
                w = slice_val(I, v, x, y, isstr)
                if w is NEVER or w is None:
                    bad += 1
                    continue
                rs = w if rs is None else join(rs, w)
        if tot and bad == tot and rs is None:
            unknown("slice index out of range")
            return I.alloc(mem, chunk_of(I.deep(v, mem)))
        if bad:
            unknown("slice index may be out of range")
        return I.alloc(mem, rs)
    if type(v) is OneOf:
        rs = None
        bad = 0
        for x in v.vs:
            w = slice_val(I, x, a, b, isstr)
            if w is NEVER or w is None:
                bad += 1
                continue
            rs = w if rs is None else join(rs, w)
        if rs is None:
            if panics:
                return I.panic("slice index out of range", mem)
            return None
        if bad:
            unknown("slice index may be out of range")
        return I.alloc(mem, rs)
    if type(v) is Sym:
        unknown("slice of unknown sequence")
        if is_top(v):
            return I.alloc(mem, chunk_of(v))
        if a == 0 and b is None:
            return r
        if (type(a) is int or type(a) is Sym and not is_top(a)) and (b is None or type(b) is int or type(b) is Sym and not is_top(b)):
            return I.alloc(mem, Seq((Chunk(("slice", I.tm(a), I.tm(b) if b is not None else None, v)),)))
        return I.alloc(mem, chunk_of(v))
    if type(v) is not Seq:
        unknown("slice of unknown")
        return I.alloc(mem, chunk_of(v))
    w = slice_val(I, v, a, b, isstr)
    if w is NEVER:
        if panics:
            return I.panic("slice index out of range (%s..%s of %s)" % (show(a), show(b) if b is not None else "", show(I.seqlen(v))), mem)
        return None
    if w is None:
        unknown("slice index may be out of range")
        return I.alloc(mem, chunk_of(v))
    if type(w) is tuple:  # boundary unknown
        unknown("slice may split a character")
        w = w[0]
    if not v.chunked and type(a) is int and (b is None or type(b) is int):
        nb = b if b is not None else len(v.e)
        return Ref(r.b, I.addrange(r.p, a, nb))
    return I.alloc(mem, w)


def slice_val(I, v, a, b, isstr):
    """Seq | NEVER (definitely out of range) | None (unknown) | (Seq,) unknown char boundary"""
    if type(v) is not Seq:
        return None
    if not v.chunked:
        n = len(v.e)
        if b is None:
            b = n
        if type(a) is int and type(b) is int:
            if a > b or b > n:
                return NEVER
            if isstr:
                x, y = is_boundary(v, a), is_boundary(v, b)
                if x is False or y is False:
                    return NEVER
                if x is None or y is None:
                    return (Seq(v.e[a:b]),)
            return Seq(v.e[a:b])
        ra, rb = I.rng(a), I.rng(b)
        if rb and rb[0] > n:
            return NEVER
        if ra and ra[0] > n:
            return NEVER
        return None
    first = next(i for i, x in enumerate(v.e) if type(x) is Chunk)
    if type(a) is int:
        if type(b) is int and b <= first:
            if a > b:
                return NEVER
            if isstr and (is_boundary(v, a) is False):
                return NEVER
            return Seq(v.e[a:b])
        if b is None and a <= first:
            return Seq(v.e[a:])
        # bounds at the very end: suffix after the last chunk
        n = I.seqlen(v)
        if b is None:
            pass
        elif b == n and a <= first:
            return Seq(v.e[a:])
    if b is not None and type(b) is Sym and type(a) is int and a <= first and not is_top(b):
        n = I.seqlen(v)
        if b == n:
            return Seq(v.e[a:])
        # len(v) - k with k known, cutting concrete suffix
        if type(n) is Sym and isinstance(n.t, tuple) and n.t[0] == "Add" and isinstance(n.t[2], int):
            base, k = n.t[1], n.t[2]
            bt = b.t
            kk = None
            if bt == base:
                kk = 0
            elif isinstance(bt, tuple) and bt[0] == "Add" and bt[1] == base and isinstance(bt[2], int):
                kk = bt[2]
            tail = 0
            for x in reversed(v.e):
                if type(x) is Chunk:
                    break
                tail += 1
            if kk is not None and 0 <= k - kk <= tail:
                return Seq(v.e[a:len(v.e) - (k - kk)])
    if type(a) is Sym and b is None and not is_top(a):
        # suffix after all chunks
        n = I.seqlen(v)
        if type(n) is Sym:
            base, k = (n.t[1], n.t[2]) if isinstance(n.t, tuple) and n.t[0] == "Add" and isinstance(n.t[2], int) else (n.t, 0)
            at = a.t
            kk = None
            if at == base:
                kk = 0
            elif isinstance(at, tuple) and at[0] == "Add" and at[1] == base and isinstance(at[2], int):
                kk = at[2]
            if kk is not None and 0 <= k - kk:
                tail = 0
                for x in reversed(v.e):
                    if type(x) is Chunk:
                        break
                    tail += 1
                if k - kk <= tail:
                    return Seq(v.e[len(v.e) - (k - kk):]) if k != kk else Seq(())
    return None


def index(I, mem, args, c):
    st, it = garg(I, c, 0), garg(I, c, 1)
    if st["k"] == "adt" and st.get("local"):
        return NI
    sp = tystrip(st)
    if "IndexMap" in sp or "HashMap" in sp or "serde_json::map::Map" in sp:
        return map_index(I, mem, args, it)
    if it["k"] == "uint":
        return index_one(I, mem, args[0], args[1])
    if "Range" in it["s"]:
        isstr = sp == "alloc::string::String" or st["k"] == "str"
        return slice_ref(I, mem, args[0], args[1], it["path"] if "path" in it else it["s"], isstr)
    return NI


MODELS["core::ops::index::Index::index"] = index
MODELS["core::ops::index::IndexMut::index_mut"] = index


def innermost(I, r, mem):
    n = 0
    while type(r) is Ref and n < 6:
        v = I.load(r, mem)
        if type(v) is Ref:
            r = v
            n += 1
        else:
            break
    if type(r) is not Ref:
        b, p = I.deref(r, mem)
        r = Ref(b, p)
    return r


def index_one(I, mem, base, i):
    r = innermost(I, base, mem)
    v = I.load(r, mem)
    n = I.seqlen(v) if type(v) in (Seq, Sym, OneOf) else None
    if type(i) is int:
        if type(n) is int and i >= n:
            return I.panic("index out of bounds: the len is %d but the index is %d" % (n, i), mem)
        if type(n) is not int:
            fixed = 0
            if type(v) is Seq:
                for x in v.e:
                    if type(x) is Chunk:
                        break
                    fixed += 1
            if i >= fixed:
                I.maypanic("index may be out of bounds", mem)
        if type(v) is OneOf:
            return I.alloc(mem, I.proj(v, ("i", i)))
        return Ref(r.b, I.addidx(r.p, i))
    ri = I.rng(i)
    if type(n) is int and ri and ri[0] >= n:
        return I.panic("index out of bounds", mem)
    if not (type(n) is int and ri and ri[1] < n):
        I.maypanic("index may be out of bounds", mem)
    return Ref(r.b, r.p + (("u", i),))


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get", "core::str::<impl str>::get_mut")
def getm(I, mem, args, c):
    isstr = "str>" in c["p"]
    it = None
    for i in range(3):
        t = garg(I, c, i)
        if "Range" in t.get("s", "") or t["k"] == "uint" and t["s"] == "usize":
            it = t
    if it is None:
        return NI
    if it["k"] == "uint":
        v = I.full(args[0], mem)
        n = I.seqlen(v)
        i = args[1]
        r = innermost(I, args[0], mem)
        if type(n) is int and type(i) is int:
            return some(Ref(r.b, I.addidx(r.p, i))) if i < n else NONE
        ri = I.rng(i)
        if type(n) is int and ri:
            if ri[0] >= n:
                return NONE
            if ri[1] < n:
                return some(Ref(r.b, r.p + (("u", i),)))
        if type(i) is int and type(v) is Seq:
            fixed = 0
            for x in v.e:
                if type(x) is Chunk:
                    break
                fixed += 1
            if i < fixed:
                return some(Ref(r.b, I.addidx(r.p, i)))
            return maybe_opt(Ref(r.b, I.addidx(r.p, i)))
        return maybe_opt(Ref(r.b, r.p + (("u", i),)) if type(i) is not int else Ref(r.b, I.addidx(r.p, i)))
    tn = it["s"]
    bb = range_bounds(I, args[1], tn, mem)
    v = I.full(args[0], mem)
    w = slice_val(I, v, bb[0], bb[1], isstr) if bb and type(v) is Seq else None
    if w is NEVER:
        return NONE
    if w is None:
        return maybe_opt(I.alloc(mem, chunk_of(I.deep(v, mem))))
    if type(w) is tuple:
        return maybe_opt(I.alloc(mem, w[0]))
    rr = slice_ref(I, mem, args[0], args[1], tn, isstr, panics=False)
    return some(rr) if rr is not None else NONE


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def firstlast(I, mem, args, c):
    r = innermost(I, args[0], mem)
    v = I.load(r, mem)
    if type(v) is Seq:
        if not v.e:
            return NONE
        if not v.chunked:
            i = 0 if c["p"].endswith("first") else len(v.e) - 1
            return some(Ref(r.b, I.addidx(r.p, i)))
        x = v.e[0] if c["p"].endswith("first") else v.e[-1]
        if type(x) is not Chunk:
            return some(I.alloc(mem, x))
    return maybe_opt(I.alloc(mem, I.proj(v, ("u",))))


@model("core::str::<impl str>::split_at", "core::slice::<impl [T]>::split_at")
def split_at(I, mem, args, c):
    v = I.full(args[0], mem)
    i = args[1]
    isstr = "str" in c["p"]
    if type(v) is Seq and type(i) is int:
        a = slice_val(I, v, 0, i, isstr)
        b = slice_val(I, v, i, None, isstr)
        if a is NEVER or b is NEVER:
            return I.panic("split_at out of range", mem)
        if a is not None and b is not None:
            if type(a) is tuple or type(b) is tuple:
                I.maypanic("split_at char boundary", mem)
                a = a[0] if type(a) is tuple else a
                b = b[0] if type(b) is tuple else b
            return Agg(0, (I.alloc(mem, a), I.alloc(mem, b)))
    I.maypanic("split_at", mem)
    return Agg(0, (I.alloc(mem, chunk_of(I.deep(v, mem))), I.alloc(mem, chunk_of(I.deep(v, mem)))))


@model("alloc::vec::Vec::push")
def vpush(I, mem, args, c):
    x = args[1]
    mutate(I, mem, args[0], lambda s: Seq(s.e + (x,)))
    return UNIT


@model("alloc::string::String::push")
def spush(I, mem, args, c):
    s2 = char_seq(args[1])
    mutate(I, mem, args[0], lambda s: seqcat(s, s2))
    return UNIT


def char_seq(ch):
    """UTF-8 of a char value"""
    if type(ch) is int:
        try:
            return S(chr(ch))
        except (UnicodeEncodeError, ValueError):
            return chunk_of(ch)
    if type(ch) is Ch or ishex(ch):
        return Seq((ch,))
    if type(ch) is Bits and all(b == 0 for b in ch.b[7:]):
        return Seq((mkbits(ch.b[:8]),))
    if type(ch) is OneOf:
        r = None
        for x in ch.vs:
            y = char_seq(x)
            r = y if r is None else join(r, y)
        return r if type(r) is Seq else chunk_of(ch)
    if type(ch) is Sym and not is_top(ch):
        return Seq((Chunk(("utf8", ch)),))
    return chunk_of(ch)


@model("alloc::string::String::push_str", "alloc::vec::Vec::extend_from_slice")
def push_str(I, mem, args, c):
    o = asseq(I, args[1], mem)
    if type(o) is not Seq:
        o = chunk_of(I.deep(args[1], mem))
    mutate(I, mem, args[0], lambda s: seqcat(s, o))
    return UNIT


@model("alloc::vec::Vec::append")
def vappend(I, mem, args, c):
    o = asseq(I, args[1], mem)
    if type(o) is not Seq:
        o = chunk_of(I.deep(args[1], mem))
    mutate(I, mem, args[0], lambda s: seqcat(s, o))
    mutate(I, mem, args[1], lambda s: Seq(()))
    return UNIT


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend")
def vextend(I, mem, args, c):
    it = to_it(I, mem, args[1], garg(I, c, 2))
    t = tystrip(garg(I, c, 0))
    if t == "alloc::string::String":
        e = collect_string(I, mem, it)
    elif t.endswith("Set"):
        v = I.full(args[0], mem)
        I.store(innermost(I, args[0], mem), set_from_it(I, mem, it, v if type(v) is MapV else MapV((), True), t), mem)
        return UNIT
    elif "Map" in t:
        v = I.full(args[0], mem)
        r = map_from_it(I, mem, it, v if type(v) is MapV else MapV((), True))
        I.store(innermost(I, args[0], mem), r, mem)
        return UNIT
    else:
        e = it_seq(I, mem, it, t2=garg(I, c, 1))
    mutate(I, mem, args[0], lambda s: seqcat(s, e))
    return UNIT


@model("alloc::string::String::insert", "alloc::vec::Vec::insert", "alloc::string::String::insert_str")
def sinsert(I, mem, args, c):
    i, x = args[1], args[2]
    if "Vec" in c["p"]:
        xs = Seq((x,))
    elif c["p"].endswith("insert_str"):
        xs = asseq(I, x, mem)
        if type(xs) is not Seq:
            xs = chunk_of(I.deep(x, mem))
    else:
        xs = char_seq(x)
    bad = []

    def f(s):
        if type(i) is int:
            lim = next((k for k, y in enumerate(s.e) if type(y) is Chunk), len(s.e))
            if i <= lim:
                return Seq(s.e[:i] + xs.e + s.e[i:])
            if not s.chunked:
                bad.append(1)
                return s
        I.maypanic("insert index", mem)
        return chunk_of(s, xs)
    mutate(I, mem, args[0], f)
    if bad:
        return I.panic("insert index out of bounds", mem)
    return UNIT


@model("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove", "alloc::string::String::remove")
def vremove(I, mem, args, c):
    i = args[1]
    s = asseq(I, args[0], mem)
    if type(s) is Seq and type(i) is int and not s.chunked:
        if i >= len(s.e):
            return I.panic("removal index out of bounds", mem)
        if "swap_remove" in c["p"]:
            mutate(I, mem, args[0], lambda s: Seq(s.e[:i] + (s.e[-1:] + s.e[i + 1:-1] if i < len(s.e) - 1 else ())))
            return s.e[i]
        if "String" in c["p"] and not (type(s.e[i]) is Ch or ishex(s.e[i]) or type(s.e[i]) is int and s.e[i] < 128):
            t = sstr(s)
            if t is None:
                I.note(c["p"])
                mutate(I, mem, args[0], lambda s: chunk_of(s))
                return top(s)
            b = is_boundary(s, i)
            if not b:
                return I.panic("removal inside a character", mem)
            ch = bytes(s.e[i:]).decode()[0]
            mutate(I, mem, args[0], lambda s: Seq(s.e[:i] + s.e[i + len(ch.encode()):]))
            return ord(ch)
        mutate(I, mem, args[0], lambda s: Seq(s.e[:i] + s.e[i + 1:]))
        return s.e[i]
    if type(s) is Seq and type(i) is int and all(type(x) is not Chunk for x in s.e[:i + 1]) and i < len(s.e) and "swap_remove" not in c["p"]:
        mutate(I, mem, args[0], lambda s: Seq(s.e[:i] + s.e[i + 1:]))
        return s.e[i]
    I.maypanic("removal index", mem)
    r = I.proj(s, ("u",)) if type(s) is Seq else top(s) if s is not None else top("remove")
    mutate(I, mem, args[0], lambda s: Seq((Chunk(top(s).t, I.seq_any(s) if s.e else None),)))
    return r


@model("alloc::vec::Vec::pop", "alloc::string::String::pop")
def vpop(I, mem, args, c):
    s = asseq(I, args[0], mem)
    if type(s) is Seq:
        if not s.e:
            return NONE
        x = s.e[-1]
        if type(x) is not Chunk and ("Vec" in c["p"] or type(x) is Ch or type(x) is int and x < 128):
            mutate(I, mem, args[0], lambda s: Seq(s.e[:-1]))
            return some(x)
    if s is None:
        return maybe_opt(top("pop"))
    r = I.seq_any(s) if type(s) is Seq else top(s)
    mutate(I, mem, args[0], lambda s: Seq((Chunk(top(s).t, I.seq_any(s) if s.e else None),)))
    return maybe_opt(r)


def lost(I, mem, ref, n):
    """content given up without being overwritten"""
    if I.drops is not None:
        v = I.full(ref, mem)
        if type(v) is Seq:
            fn, sp = I.cur()
            I.drops.append((fn, None, Seq(v.e[n:]), mem.get("#pc", ())))


@model("alloc::vec::Vec::clear", "alloc::string::String::clear")
def vclear(I, mem, args, c):
    lost(I, mem, args[0], 0)
    mutate(I, mem, args[0], lambda s: Seq(()))
    return UNIT


@model("alloc::vec::Vec::truncate", "alloc::string::String::truncate")
def vtrunc(I, mem, args, c):
    n = args[1]
    lost(I, mem, args[0], n if type(n) is int else 0)

    def f(s):
        if type(n) is int:
            lim = next((k for k, y in enumerate(s.e) if type(y) is Chunk), len(s.e))
            if n <= lim or not s.chunked:
                return Seq(s.e[:n])
        return chunk_of(s)
    mutate(I, mem, args[0], f)
    return UNIT


@model("alloc::vec::Vec::resize")
def vresize(I, mem, args, c):
    n, x = args[1], args[2]

    def f(s):
        if type(n) is int and not s.chunked and n < 4000000:
            return Seq(s.e[:n] + (x,) * (n - len(s.e)))
        return Seq((Chunk(top(s, n).t, join(I.seq_any(s), x) if s.e else x),))
    mutate(I, mem, args[0], f)
    return UNIT


@model("alloc::vec::Vec::drain", "alloc::string::String::drain")
def vdrain(I, mem, args, c):
    t = None
    for i in range(4):
        g = garg(I, c, i)
        if "Range" in g.get("s", ""):
            t = g
    s = asseq(I, args[0], mem)
    bb = range_bounds(I, args[1], t["s"] if t else "?", mem)
    if type(s) is Seq and bb and type(bb[0]) is int and (bb[1] is None or type(bb[1]) is int):
        w = slice_val(I, s, bb[0], bb[1], False)
        if w is NEVER:
            return I.panic("drain out of range", mem)
        if type(w) is Seq:
            a = bb[0]
            k = len(w.e)
            mutate(I, mem, args[0], lambda s: Seq(s.e[:a] + s.e[a + k:]))
            return It(w.e if not w.chunked else (), I.seq_any(w) if w.chunked else None)
    I.maypanic("drain range", mem)
    r = I.seq_any(s) if type(s) is Seq else top("drain")
    mutate(I, mem, args[0], lambda s: chunk_of(s))
    return It((), r)


@model("alloc::vec::Vec::split_off", "alloc::string::String::split_off")
def split_off(I, mem, args, c):
    s = asseq(I, args[0], mem)
    n = args[1]
    if type(s) is Seq and type(n) is int:
        a, b = slice_val(I, s, 0, n, False), slice_val(I, s, n, None, False)
        if a is NEVER or b is NEVER:
            return I.panic("split_off out of range", mem)
        if type(a) is Seq and type(b) is Seq:
            mutate(I, mem, args[0], lambda s: a)
            return b
    I.maypanic("split_off", mem)
    mutate(I, mem, args[0], lambda s: chunk_of(s))
    return chunk_of(s) if s is not None else chunk_of("split_off")


@model("core::slice::<impl [T]>::reverse")
def vreverse(I, mem, args, c):
    mutate(I, mem, args[0], lambda s: Seq(tuple(reversed(s.e))) if not s.chunked else Seq((Chunk(top(s).t, I.seq_any(s)),)))
    return UNIT


@model("alloc::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable")
def vsort(I, mem, args, c):
    def f(s):
        if not s.chunked:
            if all(type(x) is int for x in s.e):
                return Seq(tuple(sorted(s.e)))
            vals = [I.full(x, mem) for x in s.e]
            if all(sbytes(x) is not None for x in vals):
                return Seq(tuple(y for _, y in sorted(zip([sbytes(x) for x in vals], s.e), key=lambda z: z[0])))
            if all(type(x) is Rat for x in vals):
                return Seq(tuple(sorted(s.e, key=lambda z: z.q)))
            if len(s.e) <= 1:
                return s
            j = s.e[0]
            for x in s.e[1:]:
                j = join(j, x)
            j = top(*s.e)
            return Seq((j,) * len(s.e))
        return Seq((Chunk(top(s).t, I.seq_any(s)),))
    mutate(I, mem, args[0], f)
    return UNIT


@model("alloc::vec::Vec::dedup")
def vdedup(I, mem, args, c):
    def f(s):
        if not s.chunked:
            out = []
            for x in s.e:
                if out:
                    e = eqv(I, out[-1], x, mem)
                    if e is True:
                        continue
                    if e is None:
                        return Seq((Chunk(top(s).t, I.seq_any(s)),))
                out.append(x)
            return Seq(tuple(out))
        return Seq((Chunk(top(s).t, I.seq_any(s)),))
    mutate(I, mem, args[0], f)
    return UNIT


@model("core::slice::<impl [T]>::fill")
def vfill(I, mem, args, c):
    x = args[1]
    mutate(I, mem, args[0], lambda s: Seq(tuple(Chunk(("fill",), x) if type(y) is Chunk else x for y in s.e)))
    return UNIT


@model("core::slice::<impl [T]>::swap")
def vswap(I, mem, args, c):
    i, j = args[1], args[2]

    def f(s):
        if type(i) is int and type(j) is int and not s.chunked and i < len(s.e) and j < len(s.e):
            e = list(s.e)
            e[i], e[j] = e[j], e[i]
            return Seq(tuple(e))
        I.maypanic("swap index", mem)
        return chunk_of(s)
    mutate(I, mem, args[0], f)
    return UNIT


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def copy_from(I, mem, args, c):
    d = asseq(I, args[0], mem)
    s = asseq(I, args[1], mem)
    ld, ls = I.seqlen(d) if d is not None else None, I.seqlen(s) if s is not None else None
    if type(ld) is int and type(ls) is int:
        if ld != ls:
            return I.panic("copy_from_slice: source slice length (%d) does not match destination slice length (%d)" % (ls, ld), mem)
    elif ld is None or ls is None or ld != ls or is_top(ld):
        I.maypanic("copy_from_slice length", mem)
    r = innermost(I, args[0], mem)
    if s is None:
        s = chunk_of(I.deep(args[1], mem))
    if type(ld) is int and type(s) is Seq and s.chunked:
        s = Seq((top(s),) * ld)
    I.store(r, s if type(s) is Seq else chunk_of(s), mem)
    return UNIT


@model("core::slice::<impl [T]>::contains")
def vcontains(I, mem, args, c):
    if inside(I, garg(I, c), "core::cmp::PartialEq"):
        I.note("search of values with hand-written equality inside")
        return top(I.deep(args[0], mem), I.deep(args[1], mem))
    s = asseq(I, args[0], mem)
    if type(s) is not Seq:
        return top(I.deep(args[0], mem), I.deep(args[1], mem))
    return anyeq(I, mem, s, args[1])


def anyeq(I, mem, s, x):
    x = I.full(x, mem)
    if type(x) is OneOf:
        r = None
        for y in x.vs:
            z = anyeq(I, mem, s, y)
            r = z if r is None else join(r, z)
        return r
    unk = False
    poss = []
    for e in s.e:
        if type(e) is Chunk:
            unk = True
            continue
        q = eqv(I, e, x, mem)
        if q is True:
            return 1
        if q is None:
            unk = True
            poss.append(e)
    if not unk:
        return 0
    d = I.deep(x, mem)
    if has_top(d) or s.chunked and has_top(s):
        return top(s, d)
    return Sym(("in", I.deep(s, mem), I.tm(d)))


def prefixm(suffix):
    def m(I, mem, args, c):
        a = asseq(I, args[0], mem)
        x = args[1]
        b = asseq(I, x, mem) if type(x) in (Ref, Seq) else char_seq(x) if type(x) in (int, Ch, Bits) else None
        if type(a) is OneOf and type(b) is Seq:
            r = None
            for y in a.vs:
                z = prefix_val(I, mem, y, b, suffix)
                r = z if r is None else join(r, z)
            return r
        if type(a) is not Seq or type(b) is not Seq:
            return top(I.deep(args[0], mem), I.deep(args[1], mem))
        return prefix_val(I, mem, a, b, suffix)
    return m


def prefix_val(I, mem, a, b, suffix):
    if b.chunked:
        return top(a, b)
    e = a.e[::-1] if suffix else a.e
    f = b.e[::-1] if suffix else b.e
    unk = False
    for k, y in enumerate(f):
        if k >= len(e):
            return 0
        if type(e[k]) is Chunk:
            unk = True
            break
        q = eqv(I, e[k], y, mem)
        if q is False:
            return 0
        if q is None:
            unk = True
    if unk:
        if has_top(a):
            return top(a, b)
        return Sym(("suffix" if suffix else "prefix", a, b))
    return 1


MODELS["core::str::<impl str>::starts_with"] = prefixm(False)
MODELS["core::str::<impl str>::ends_with"] = prefixm(True)
MODELS["core::slice::<impl [T]>::starts_with"] = prefixm(False)
MODELS["core::slice::<impl [T]>::ends_with"] = prefixm(True)


@model("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix", "core::slice::<impl [T]>::strip_prefix", "core::slice::<impl [T]>::strip_suffix")
def strip_prefix(I, mem, args, c):
    suf = c["p"].endswith("suffix")
    t = prefixm(suf)(I, mem, args, c)
    a = asseq(I, args[0], mem)
    x = args[1]
    b = asseq(I, x, mem) if type(x) in (Ref, Seq) else char_seq(x)
    if t == 0:
        return NONE
    if type(a) is Seq and type(b) is Seq and not b.chunked:
        n = len(b.e)
        rest = lambda: I.alloc(mem, Seq(a.e[:len(a.e) - n] if suf else a.e[n:]))
        if t == 1:
            return some(rest())
        if not a.chunked and len(a.e) >= n and not has_top(a):
            pc = mem.get("#pc", ())
            return Alt({0: (), 1: (rest(),)}, None if pc is None else {0: pc + ((t, 0),), 1: pc + ((t, 1),), "J": pc})
    return maybe_opt(I.alloc(mem, chunk_of(I.deep(args[0], mem))))


@model("core::str::<impl str>::contains")
def scontains(I, mem, args, c):
    a = asseq(I, args[0], mem)
    x = args[1]
    b = asseq(I, x, mem) if type(x) in (Ref, Seq) else char_seq(x) if type(x) in (int, Ch, Bits) else None
    if type(a) is Seq and type(b) is Seq and not b.chunked:
        n, m = len(a.e), len(b.e)
        unk = a.chunked
        if not a.chunked:
            for i in range(n - m + 1):
                r = True
                for k in range(m):
                    q = eqv(I, a.e[i + k], b.e[k], mem)
                    if q is False:
                        r = False
                        break
                    if q is None:
                        r = None
                if r is True:
                    return 1
                if r is None:
                    unk = True
        if not unk:
            return 0
        if not has_top(a):
            return Sym(("contains", a, b))
    return top(I.deep(args[0], mem), I.deep(args[1], mem) if type(args[1]) is Ref else "pat")


@model("core::str::<impl str>::find", "core::str::<impl str>::rfind")
def sfind(I, mem, args, c):
    a, b = sstr_of(I, args[0], mem), None
    x = args[1]
    b = sstr_of(I, x, mem) if type(x) in (Ref, Seq) else chr(x) if type(x) is int else None
    if a is not None and b is not None:
        aa, bb = a.encode(), b.encode()
        i = aa.find(bb) if c["p"].endswith("::find") else aa.rfind(bb)
        return NONE if i < 0 else some(i)
    s = asseq(I, args[0], mem)
    return maybe_opt(top(I.deep(args[0], mem)))


def sstr_of(I, v, mem):
    s = asseq(I, v, mem)
    return sstr(s) if type(s) is Seq else None


@model("core::str::<impl str>::trim", "core::str::<impl str>::trim_start", "core::str::<impl str>::trim_end")
def strim(I, mem, args, c):
    t = sstr_of(I, args[0], mem)
    which = c["p"].rsplit("::", 1)[1]
    if t is not None:
        r = t.strip(WS) if which == "trim" else t.lstrip(WS) if which == "trim_start" else t.rstrip(WS)
        return I.alloc(mem, S(r))
    s = asseq(I, args[0], mem)
    if type(s) is Seq:
        def cut(e):
            """number of leading elements that are blanks; None when that is not decided"""
            for i, x in enumerate(e):
                if type(x) is int and (9 <= x <= 13 or x == 32):
                    continue
                return i if type(x) is Ch or type(x) is int and (x < 128 or x >= 0xC0 and x not in (0xC2, 0xE1, 0xE2, 0xE3)) or ishex(x) else None
            return len(e)
        lo = cut(s.e) if which != "trim_end" else 0
        hi = cut(s.e[::-1]) if which != "trim_start" else 0
        if lo is not None and hi is not None:
            if not lo and not hi:
                return args[0]
            return I.alloc(mem, Seq(s.e[lo:len(s.e) - hi] if lo < len(s.e) else ()))
    return I.alloc(mem, chunk_of(I.deep(args[0], mem)))


WS = "\t\n\x0b\x0c\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"


@model("core::str::<impl str>::trim_start_matches", "core::str::<impl str>::trim_end_matches", "core::str::<impl str>::trim_matches")
def strimm(I, mem, args, c):
    t = sstr_of(I, args[0], mem)
    x = args[1]
    p = sstr_of(I, x, mem) if type(x) in (Ref, Seq) else chr(x) if type(x) is int else None
    if t is not None and p:
        if "end" not in c["p"]:
            while t.startswith(p):
                t = t[len(p):]
        if "start" not in c["p"]:
            while t.endswith(p):
                t = t[:-len(p)]
        return I.alloc(mem, S(t))
    s = asseq(I, args[0], mem)
    if type(s) is Seq and p and len(p) == 1 and ord(p) < 128:
        def cut(e):
            for i, x in enumerate(e):
                if type(x) is Chunk:
                    return None
                q = eqv(I, x, ord(p), mem)
                if q is None:
                    return None
                if not q:
                    return i
            return len(e)
        lo = cut(s.e) if "end" not in c["p"] else 0
        hi = cut(s.e[::-1]) if "start" not in c["p"] else 0
        if lo is not None and hi is not None:
            if not lo and not hi:
                return args[0]
            return I.alloc(mem, Seq(s.e[lo:len(s.e) - hi] if lo < len(s.e) else ()))
    return I.alloc(mem, chunk_of(I.deep(args[0], mem)))


@model("core::str::<impl str>::split", "core::str::<impl str>::splitn", "core::str::<impl str>::split_terminator", "core::str::<impl str>::rsplit")
def ssplit(I, mem, args, c):
    nm = c["p"].split("::")
    t = sstr_of(I, args[0], mem)
    x = args[-1]
    p = sstr_of(I, x, mem) if type(x) in (Ref, Seq) else chr(x) if type(x) is int else None
    if t is not None and p:
        if "splitn" in c["p"] and type(args[1]) is int:
            parts = t.split(p, args[1] - 1)
        elif "splitn" in c["p"]:
            parts = None
        else:
            parts = t.split(p)
            if "split_terminator" in c["p"] and parts and parts[-1] == "":
                parts.pop()
            if "rsplit" in c["p"]:
                parts.reverse()
        if parts is not None:
            return It(tuple(I.alloc(mem, S(q)) for q in parts))
    s = asseq(I, args[0], mem)
    if type(s) is Seq and p and len(p) == 1 and "splitn" not in c["p"]:
        # split on a known character, unknown pieces
        pc = ord(p)
        if all(type(x) is not Chunk and I.eq(x, pc) is not None for x in s.e):
            out = [[]]
            for y in s.e:
                if I.eq(y, pc):
                    out.append([])
                else:
                    out[-1].append(y)
            return It(tuple(I.alloc(mem, Seq(tuple(q))) for q in out))
    d = I.deep(args[0], mem)
    return It((), I.alloc(mem, Seq((Chunk(("piece", I.tm(d)) if not has_top(d) else top(d).t),))))


@model("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def split_once(I, mem, args, c):
    t = sstr_of(I, args[0], mem)
    x = args[1]
    p = sstr_of(I, x, mem) if type(x) in (Ref, Seq) else chr(x) if type(x) is int else None
    if t is not None and p:
        if p not in t:
            return NONE
        a, b = t.split(p, 1) if not c["p"].endswith("rsplit_once") else t.rsplit(p, 1)
        return some(Agg(0, (I.alloc(mem, S(a)), I.alloc(mem, S(b)))))
    d = I.deep(args[0], mem)
    return maybe_opt(Agg(0, (I.alloc(mem, chunk_of(d)), I.alloc(mem, chunk_of(d)))))


@model("alloc::str::<impl str>::repeat", "alloc::slice::<impl [T]>::repeat")
def srepeat(I, mem, args, c):
    n = args[1]

    def f(s):
        if type(n) is int and n * len(s.e) < 4000000:
            return Seq(s.e * n)
        if type(n) is OneOf and all(type(x) is int for x in n.vs):
            r = None
            for x in n.vs:
                y = Seq(s.e * x)
                r = y if r is None else join(r, y)
            return r
        return Seq((Chunk(("repeat", s, I.tm(n)) if not is_top(n) else top(s, n).t),))
    return overseq(I, args[0], mem, f)


@model("alloc::str::<impl str>::replace")
def sreplace(I, mem, args, c):
    t = sstr_of(I, args[0], mem)
    x = args[1]
    a = sstr_of(I, x, mem) if type(x) in (Ref, Seq) else chr(x) if type(x) is int else None
    b = sstr_of(I, args[2], mem)
    if t is not None and a is not None and b is not None:
        return S(t.replace(a, b))
    s = asseq(I, args[0], mem)
    if type(s) is Seq and a is not None and b is not None and len(a) == 1:
        pc = ord(a)
        if all(type(x) is not Chunk and I.eq(x, pc) is not None for x in s.e):
            out = []
            for y in s.e:
                if I.eq(y, pc):
                    out.extend(b.encode())
                else:
                    out.append(y)
            return Seq(tuple(out))
    d = I.deep(args[0], mem)
    if a is None or b is None:
        return chunk_of(d)
    return Seq((Chunk(("replace", I.tm(d), a, b) if not has_top(d) else top(d).t),))


@model("alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_uppercase",
       "alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::to_ascii_uppercase")
def slower(I, mem, args, c):
    t = sstr_of(I, args[0], mem)
    if t is not None:
        return S(t.lower() if "lower" in c["p"] else t.upper())
    return chunk_of(I.deep(args[0], mem))


@model("alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::concat")
def sjoin(I, mem, args, c):
    s = asseq(I, args[0], mem)
    sep = Seq(())
    if len(args) > 1:
        sep = asseq(I, args[1], mem)
    if type(s) is Seq and not s.chunked and type(sep) is Seq:
        out = ()
        for k, x in enumerate(s.e):
            y = asseq(I, x, mem)
            if type(y) is not Seq:
                y = chunk_of(I.deep(x, mem))
            if k:
                out += sep.e
            out += y.e
        return Seq(out)
    d = I.deep(args[0], mem)
    if type(sep) is Seq and not has_top(d):
        return Seq((Chunk(("join", I.tm(d), sep)),))
    return chunk_of(d)


def is_text_chunk(x):
    return type(x) is Chunk and isinstance(x.t, tuple) and bool(x.t) and x.t[0] in ("jsonesc", "dec", "hex", "HEX", "bool")


@model("alloc::string::String::from_utf8", "core::str::converts::from_utf8", "alloc::string::String::from_utf8_lossy")
def from_utf8(I, mem, args, c):
    s = asseq(I, args[0], mem)
    v = args[0]
    lossy = c["p"].endswith("lossy")
    if type(s) is Seq:
        b = sbytes(s)
        if b is None and all(type(x) is int or is7(x) or is_text_chunk(x) for x in s.e):
            # one-character unknowns cannot repair or break a neighbouring sequence
            b = bytes(x if type(x) is int else 97 for x in s.e)
        if b is not None:
            try:
                b.decode()
                return Agg(0, (v,))
            except UnicodeDecodeError:
                return top(s) if lossy else err(S("utf8 error"))
        if not s.chunked and all(map(is7, s.e)):
            return Agg(0, (v,))
    if lossy:
        return top(I.deep(v, mem))
    return Alt({0: (v,), 1: (S("utf8 error"),)})


@model("core::str::<impl str>::is_char_boundary")
def is_cb(I, mem, args, c):
    s = asseq(I, args[0], mem)
    if type(s) is Seq and not s.chunked and type(args[1]) is int:
        b = is_boundary(s, args[1])
        if b is not None:
            return int(b)
    return top(I.deep(args[0], mem))


@model("core::str::<impl str>::is_ascii", "core::slice::ascii::<impl [u8]>::is_ascii")
def is_ascii(I, mem, args, c):
    s = asseq(I, args[0], mem)
    if type(s) is Seq and not s.chunked:
        if all(map(is7, s.e)):
            return 1
        if any(type(x) is int and x >= 128 for x in s.e):
            return 0
        rest = [x for x in s.e if not is7(x)]
        if all(type(x) is Bits and len(x.b) >= 8 and x.b[7] >= 2 for x in rest):
            cs = tuple(("Eq", Bits((x.b[7],)), 0) for x in rest)
            return Sym(cs[0] if len(cs) == 1 else ("allof",) + cs)
    return top(I.deep(args[0], mem))


@model("core::str::<impl str>::parse")
def sparse(I, mem, args, c):
    t = None
    for i in range(2):
        g = garg(I, c, i)
        if g["k"] != "?":
            t = g
            break
    if t is None:
        return NI
    s = sstr_of(I, args[0], mem)
    if t["k"] in ("int", "uint"):
        return from_str_radix(I, mem, [args[0], 10], t["bits"], t["k"] == "int")
    if t["k"] == "bool" and s is not None:
        return ok(int(s == "true")) if s in ("true", "false") else err(S("parse bool"))
    return maybe(top(I.deep(args[0], mem)))


# ------------------------------------------------------------------ chars
@model("core::char::methods::<impl char>::len_utf8")
def len_utf8(I, mem, args, c):
    x = args[0]
    if type(x) is int:
        return len(chr(x).encode())
    if type(x) is Ch or ishex(x):
        return 1
    return top(x)


@model("core::char::methods::<impl char>::is_ascii", "core::num::<impl u8>::is_ascii")
def c_ascii(I, mem, args, c):
    x = I.full(args[0], mem)
    if type(x) is int:
        return int(x < 128)
    if type(x) is Ch or ishex(x):
        return 1
    return top(x)


PREDS = {}


def charpred(name, f):
    PREDS[name] = f

    def m(I, mem, args, c):
        x = I.full(args[0], mem)
        if type(x) is int:
            return int(f(x))
        if type(x) is Ch:
            from absint import _B64SET
            s = {bool(f(k)) for k in _B64SET}
            if len(s) == 1:
                return int(s.pop())
            return Sym((name, x))
        if type(x) is Bits and -1 not in x.b:
            return Sym((name, x))
        return top(x)
    MODELS["core::char::methods::<impl char>::" + name] = m
    MODELS["core::num::<impl u8>::" + name] = m


charpred("is_ascii_alphanumeric", lambda x: x < 128 and chr(x).isalnum())
charpred("is_ascii_digit", lambda x: 48 <= x <= 57)
charpred("is_ascii_alphabetic", lambda x: x < 128 and chr(x).isalpha())
charpred("is_ascii_uppercase", lambda x: 65 <= x <= 90)
charpred("is_ascii_lowercase", lambda x: 97 <= x <= 122)
charpred("is_ascii_hexdigit", lambda x: chr(x) in "0123456789abcdefABCDEF")
charpred("is_ascii_punctuation", lambda x: x < 128 and 33 <= x <= 126 and not chr(x).isalnum())
charpred("is_ascii_whitespace", lambda x: x in (32, 9, 10, 12, 13))


@model("core::char::methods::<impl char>::to_string")
def c_tos(I, mem, args, c):
    return char_seq(I.full(args[0], mem))


# ------------------------------------------------------------------ iterators
def re_iterable(p):
    return p.startswith("core::ops::range::") or "option::" in p or p.startswith("core::result::")


def to_it(I, mem, v, t=None):
    """normalise an iterator / iterable value to It"""
    x = I.full(v, mem)
    tx = type(x)
    if tx is It:
        return x
    isref = type(v) is Ref or (type(v) is OneOf and any(type(q) is Ref for q in v.vs))
    if tx is Seq:
        if isref:
            r = innermost(I, v, mem)
            return seq_refs(I, mem, r, x)
        if x.chunked:
            pre = []
            for i, e in enumerate(x.e):
                if type(e) is Chunk:
                    return It(tuple(pre), I.seq_any(Seq(x.e[i:])))
                pre.append(e)
        return It(x.e)
    if tx is MapV and isset(x):
        if isref:
            return It(tuple(I.const_ref(k) for k, _ in x.items), I.alloc(mem, top(x)) if x.open else None)
        return It(tuple(k for k, _ in x.items), top(x) if x.open else None)
    if tx is MapV:
        if isref:
            r = innermost(I, v, mem)
            items = tuple(Agg(0, (I.const_ref(k), Ref(r.b, r.p + (("k", k),)))) for k, _ in x.items)
            rest = None
            if x.open:
                rest = Agg(0, (I.alloc(mem, chunk_of("key")), I.alloc(mem, x.rest if x.rest is not None else top(x))))
            return It(items, rest)
        return It(tuple(Agg(0, (k, y)) for k, y in x.items), Agg(0, (chunk_of("key"), x.rest if x.rest is not None else top(x))) if x.open else None)
    if tx is Agg:
        ts = (t or {}).get("s", "")
        tt = t or {}
        while tt.get("k") == "ref":
            tt = I.T[tt["t"]]
        if tt.get("k") == "adt" and not re_iterable(tystrip(tt)):
            return It((), top(x))
        if "RangeInclusive" in ts or len(x.f) == 3:
            a, b = x.f[0], x.f[1]
            if type(a) is int and type(b) is int and b - a < 1500000:
                return It(tuple(range(a, b + 1)))
            return It((), top(a, b))
        if len(x.f) == 2:
            a, b = x.f
            if type(a) is int and type(b) is int:
                if b - a < 1500000:
                    return It(tuple(range(a, b)))
            return It((), Sym(("idx", I.tm(a), I.tm(b))) if not is_top(a) and not is_top(b) and type(b) is Sym else top(a, b))
        if tt.get("path") == "core::result::Result":
            return It(x.f if x.v == 0 else ())
        if len(x.f) == 0 or len(x.f) == 1 and x.v == 1:  # Option
            return It(x.f if x.v == 1 else ())
        if len(x.f) == 1:
            return It((), top(x))
    if tx is Alt and set(x.a) <= {0, 1}:
        return It((), x.a.get(1, (top(x),))[0] if x.a.get(1) else None)
    if tx is OneOf:
        r = None
        for q in x.vs:
            it = to_it(I, mem, q if not isref else I.alloc(mem, q), t)
            r = it if r is None else join(r, it)
        return r if type(r) is It else It((), top(x))
    if tx is Sym and not is_top(x):
        e = Sym(("elem", x.t))
        return It((), I.alloc(mem, e) if isref else e)
    return It((), I.alloc(mem, top(x)) if isref else top(x))


def seq_refs(I, mem, r, s):
    items = []
    for i, e in enumerate(s.e):
        if type(e) is Chunk:
            return It(tuple(items), I.alloc(mem, I.seq_any(Seq(s.e[i:]))))
        items.append(Ref(r.b, I.addidx(r.p, i)))
    return It(tuple(items))


def it_any(it):
    r = it.rest
    for x in it.items:
        r = x if r is None else join(r, x)
    return r


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(I, mem, args, c):
    t = garg(I, c)
    v = args[0]
    x = I.full(v, mem)
    if t["k"] == "adt" and t.get("local"):
        return NI
    if type(x) is It:
        return x if type(v) is not Ref or t["k"] != "ref" else v
    if type(x) is Agg and t["s"].startswith("core::ops::range::Range<") and not all(type(q) is int for q in x.f):
        return x
    return to_it(I, mem, v, t)


def iter_src(I, mem, args, c):
    return to_it(I, mem, args[0], {"k": "adt", "path": "core::result::Result", "s": "Result"} if c["p"].startswith("core::result::") else None)


for n in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "alloc::vec::Vec::iter",
          "indexmap::map::IndexMap::iter", "std::collections::hash::map::HashMap::iter", "indexmap::map::IndexMap::iter_mut",
          "serde_json::map::Map::iter", "core::option::Option::iter", "core::result::Result::iter", "core::array::<impl [T; N]>::iter", "core::array::<impl [T; N]>::each_ref_"):
    MODELS[n] = iter_src


@model("indexmap::map::IndexMap::keys", "serde_json::map::Map::keys", "std::collections::hash::map::HashMap::keys")
def map_keys(I, mem, args, c):
    it = to_it(I, mem, args[0])
    return It(tuple(x.f[0] for x in it.items), it.rest.f[0] if type(it.rest) is Agg else it.rest)


@model("indexmap::map::IndexMap::values", "serde_json::map::Map::values", "indexmap::map::IndexMap::values_mut", "std::collections::hash::map::HashMap::values")
def map_values(I, mem, args, c):
    it = to_it(I, mem, args[0])
    return It(tuple(x.f[1] for x in it.items), it.rest.f[1] if type(it.rest) is Agg else it.rest)


@model("indexmap::map::IndexMap::into_values", "indexmap::map::IndexMap::into_keys")
def map_into_values(I, mem, args, c):
    it = to_it(I, mem, args[0])
    k = 1 if c["p"].endswith("values") else 0
    return It(tuple(x.f[k] for x in it.items), it.rest.f[k] if type(it.rest) is Agg else it.rest)


@model("core::str::<impl str>::chars")
def schars(I, mem, args, c):
    return chars_it(I, mem, asseq(I, args[0], mem), I.deep(args[0], mem))


def chars_it(I, mem, s, d):
    if type(s) is OneOf:
        r = None
        for q in s.vs:
            x = chars_it(I, mem, q, q)
            r = x if r is None else join(r, x)
        return r
    if type(s) is not Seq:
        return It((), top(d))
    out = []
    e = s.e
    i = 0
    while i < len(e):
        x = e[i]
        if type(x) is Chunk:
            if isinstance(x.t, tuple) and len(x.t) == 2 and x.t[0] == "utf8":
                out.append(x.t[1])
                i += 1
                continue
            return It(tuple(out), Sym(("char", x.t)) if not has_top(x) else top(x))
        if type(x) is int:
            if x < 128:
                out.append(x)
                i += 1
                continue
            n = 2 if x >> 5 == 6 else 3 if x >> 4 == 14 else 4
            seg = e[i:i + n]
            if all(type(q) is int for q in seg):
                try:
                    out.append(ord(bytes(seg).decode()))
                    i += n
                    continue
                except Exception:
                    pass
            return It(tuple(out), top(s))
        if type(x) is Ch or ishex(x):
            out.append(x)
            i += 1
            continue
        if type(x) is Bits and (len(x.b) < 8 or x.b[7] == 0):
            out.append(x)
            i += 1
            continue
        return It(tuple(out), top(s))
    return It(tuple(out))


@model("core::str::<impl str>::bytes")
def sbytes_it(I, mem, args, c):
    s = asseq(I, args[0], mem)
    if type(s) is Seq:
        return to_it(I, mem, s)
    return It((), top(I.deep(args[0], mem)))


@model("core::str::<impl str>::char_indices")
def char_indices(I, mem, args, c):
    s = asseq(I, args[0], mem)
    it = chars_it(I, mem, s, I.deep(args[0], mem))
    if it.rest is None:
        pos = 0
        out = []
        for x in it.items:
            out.append(Agg(0, (pos, x)))
            pos += len(chr(x).encode()) if type(x) is int else 1
        return It(tuple(out))
    return It((), Agg(0, (top("pos"), it_any(it))))


def chunksm(I, mem, args, c):
    n = args[1]
    exact = "exact" in c["p"]
    win = c["p"].endswith("windows")
    r = innermost(I, args[0], mem)
    s = I.load(r, mem)
    if type(n) is int and n == 0:
        return I.panic("chunk size must be non-zero", mem)
    if type(s) is Seq and not s.chunked and type(n) is int:
        out = []
        L = len(s.e)
        rngs = [(i, i + n) for i in range(L - n + 1)] if win else [(i, min(i + n, L)) for i in range(0, L, n)]
        for a, b in rngs:
            if exact and b - a != n:
                continue
            out.append(Ref(r.b, I.addrange(r.p, a, b)))
        return It(tuple(out))
    return It((), I.alloc(mem, chunk_of(I.deep(s, mem))))


for n in ("chunks", "chunks_exact", "windows", "chunks_mut", "chunks_exact_mut"):
    MODELS["core::slice::<impl [T]>::" + n] = chunksm


@model("core::iter::traits::iterator::Iterator::next")
def it_next(I, mem, args, c):
    t = garg(I, c)
    while t["k"] == "ref":
        t = I.T[t["t"]]
    if t["k"] == "adt" and t.get("local"):
        return NI
    r = innermost(I, args[0], mem)
    v = I.load(r, mem)
    if type(v) is Agg and len(v.f) == 2:
        a, b = v.f
        if type(a) is int and type(b) is int:
            if a < b:
                I.store(r, Agg(0, (a + 1, b)), mem)
                return some(a)
            return NONE
        ra, rb = I.rng(a), I.rng(b)
        na = a + 1 if type(a) is int else top(a)
        if ra and rb and ra[1] < rb[0]:
            I.store(r, Agg(0, (na, b)), mem)
            return some(a)
        if ra and rb and ra[0] >= rb[1]:
            return NONE
        I.store(r, Agg(0, (na, b)), mem)
        return maybe_opt(a if type(a) is int else Sym(("idx", I.tm(b))) if type(b) is Sym and not is_top(b) else top(a, b))
    if type(v) is not It:
        v = to_it(I, mem, v, t) if type(v) in (Agg, Seq, OneOf, Alt) else v
    if type(v) is It:
        if v.items:
            I.store(r, It(v.items[1:], v.rest), mem)
            return some(v.items[0])
        if v.rest is None:
            return NONE
        return maybe_opt(v.rest)
    if type(v) is Sym and not is_top(v):
        return maybe_opt(Sym(("elem", v.t)))
    return maybe_opt(top(v))


@model("core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next_back(I, mem, args, c):
    r = innermost(I, args[0], mem)
    v = to_it(I, mem, I.load(r, mem), garg(I, c))
    if v.rest is None:
        if v.items:
            I.store(r, It(v.items[:-1]), mem)
            return some(v.items[-1])
        return NONE
    return maybe_opt(it_any(v))


def itm(name, trait="core::iter::traits::iterator::Iterator::"):
    def d(f):
        def g(I, mem, args, c):
            t = garg(I, c)
            tt = t
            while tt["k"] == "ref":
                tt = I.T[tt["t"]]
            if tt["k"] == "adt" and tt.get("local"):
                it = local_it(I, mem, args[0], tt)
                if it is None:
                    return NI
            else:
                it = to_it(I, mem, args[0], t)
            # a closure keeps its captured state from one call to the next
            return f(I, mem, it, [I.alloc(mem, x) if type(x) is Clo else x for x in args[1:]], c)
        MODELS[trait + name] = g
        return f
    return d


def local_it(I, mem, v, tt):
    """items of an iterator type of the crate itself, by running its next()"""
    fi = find_impl(I, "core::iter::traits::iterator::Iterator", tt, "next")
    if fi is None or "body" not in I.F[fi]:
        return None
    r = v if type(v) is Ref else I.alloc(mem, v)
    out = []
    while len(out) < 200:
        y = I.call(fi, [r], mem)
        if type(y) is not Agg:
            I.note("iteration of " + tystrip(tt))
            return It(tuple(out), top("next"))
        if y.v == 0:
            return It(tuple(out))
        out.append(y.f[0])
    I.note("iteration of " + tystrip(tt))
    return It(tuple(out), top("next"))


def spend(I, mem, args):
    if type(args[0]) is Ref:
        r = innermost(I, args[0], mem)
        I.store(r, It(()), mem)


def call_may(I, mem, f, args):
    """call f in a copy of the state and join the effect (may be executed zero or more times)"""
    m = dict(mem)
    m["#w"] = 0
    r = I.invoke(f, args, m)
    if r is NEVER:
        return NEVER
    w = mem.get("#w")
    j, _ = I.joinmem(mem, m)
    mem.clear()
    mem.update(j)
    if w is not None:
        mem["#w"] = w
    else:
        mem.pop("#w", None)
    return r


@itm("enumerate")
def i_enum(I, mem, it, a, c):
    return It(tuple(Agg(0, (i, x)) for i, x in enumerate(it.items)), None if it.rest is None else Agg(0, (top("index"), it.rest)))


@itm("rev")
def i_rev(I, mem, it, a, c):
    if it.rest is None:
        return It(tuple(reversed(it.items)))
    return It((), it_any(it))


@itm("copied")
def i_copied(I, mem, it, a, c):
    return It(tuple(I.load(x, mem) for x in it.items), None if it.rest is None else I.load(it.rest, mem))


MODELS["core::iter::traits::iterator::Iterator::cloned"] = MODELS["core::iter::traits::iterator::Iterator::copied"]


@itm("skip")
def i_skip(I, mem, it, a, c):
    n = a[0]
    if type(n) is int:
        return It(it.items[n:], it.rest)
    return It((), it_any(it))


@itm("take")
def i_take(I, mem, it, a, c):
    n = a[0]
    if type(n) is int:
        if it.rest is None or len(it.items) >= n:
            return It(it.items[:n])
        return it
    if it.rest is None and not it.items:
        return it
    return It((), it_any(it))


@itm("step_by")
def i_step(I, mem, it, a, c):
    n = a[0]
    if type(n) is int and n and it.rest is None:
        return It(it.items[::n])
    return It((), it_any(it))


@itm("chain")
def i_chain(I, mem, it, a, c):
    o = to_it(I, mem, a[0])
    if it.rest is None:
        return It(it.items + o.items, o.rest)
    return It((), join(it_any(it), it_any(o)) if it_any(o) is not None else it_any(it))


@itm("zip")
def i_zip(I, mem, it, a, c):
    o = to_it(I, mem, a[0])
    n = min(len(it.items), len(o.items))
    items = [Agg(0, (x, y)) for x, y in zip(it.items, o.items)]
    rest = None
    if it.rest is None and o.rest is None:
        return It(items)
    if it.rest is None and len(it.items) <= n:
        return It(items)
    if o.rest is None and len(o.items) <= n:
        return It(items)
    x, y = it_any(It(it.items[n:], it.rest)), it_any(It(o.items[n:], o.rest))
    return It(items, Agg(0, (x, y)))


@itm("peekable")
def i_peek(I, mem, it, a, c):
    return it


MODELS["core::iter::traits::iterator::Iterator::fuse"] = MODELS["core::iter::traits::iterator::Iterator::peekable"]


@itm("by_ref")
def i_byref(I, mem, it, a, c):
    return it


def _byref(I, mem, args, c):
    return args[0]


MODELS["core::iter::traits::iterator::Iterator::by_ref"] = _byref


@model("core::iter::adapters::peekable::Peekable::peek")
def peek(I, mem, args, c):
    it = to_it(I, mem, args[0])
    if it.items:
        return some(I.alloc(mem, it.items[0]))
    if it.rest is None:
        return NONE
    return maybe_opt(I.alloc(mem, it.rest))


@itm("map")
def i_map(I, mem, it, a, c):
    out = []
    for x in it.items:
        y = I.invoke(a[0], [x], mem)
        if y is NEVER:
            return NEVER
        out.append(y)
    rest = None
    if it.rest is not None:
        rest = call_may(I, mem, a[0], [it.rest])
        if rest is NEVER:
            rest = None
    return It(out, rest)


@itm("inspect")
def i_inspect(I, mem, it, a, c):
    for x in it.items:
        I.invoke(a[0], [I.alloc(mem, x)], mem)
    return it


@itm("filter")
def i_filter(I, mem, it, a, c):
    out = []
    unk = None
    for x in it.items:
        y = I.invoke(a[0], [I.alloc(mem, x)], mem)
        if y is NEVER:
            return NEVER
        if y == 1:
            if unk is None:
                out.append(x)
            else:
                unk = join(unk, x)
        elif y == 0:
            continue
        else:
            unk = x if unk is None else join(unk, x)
    if it.rest is not None:
        y = call_may(I, mem, a[0], [I.alloc(mem, it.rest)])
        if y != 0:
            unk = it.rest if unk is None else join(unk, it.rest)
    return It(out, unk)


@itm("filter_map")
def i_filter_map(I, mem, it, a, c):
    out = []
    unk = None
    for x in it.items:
        y = I.invoke(a[0], [x], mem)
        if y is NEVER:
            return NEVER
        if type(y) is Agg and y.v == 0:
            continue
        if type(y) is Agg and unk is None:
            out.append(y.f[0])
            continue
        v = y.f[0] if type(y) is Agg else y.a[1][0] if type(y) is Alt else top(y)
        unk = v if unk is None else join(unk, v)
    if it.rest is not None:
        y = call_may(I, mem, a[0], [it.rest])
        if y is not NEVER and not (type(y) is Agg and y.v == 0):
            v = y.f[0] if type(y) is Agg else y.a[1][0] if type(y) is Alt else top(y)
            unk = v if unk is None else join(unk, v)
    return It(out, unk)


@itm("flat_map")
def i_flat_map(I, mem, it, a, c):
    out = It(())
    for x in it.items:
        y = I.invoke(a[0], [x], mem)
        if y is NEVER:
            return NEVER
        o = to_it(I, mem, y)
        if out.rest is None:
            out = It(out.items + o.items, o.rest)
        else:
            z = it_any(o)
            out = It((), join(it_any(out), z) if z is not None else it_any(out))
    if it.rest is not None:
        y = call_may(I, mem, a[0], [it.rest])
        if y is not NEVER:
            z = it_any(to_it(I, mem, y))
            if z is not None:
                w = it_any(out)
                out = It(out.items, z) if out.rest is None else It((), join(w, z))
    return out


@itm("flatten")
def i_flatten(I, mem, it, a, c):
    out = It(())
    for x in it.items:
        o = to_it(I, mem, x)
        if out.rest is None:
            out = It(out.items + o.items, o.rest)
        else:
            z = it_any(o)
            out = It((), join(it_any(out), z) if z is not None else it_any(out))
    if it.rest is not None:
        z = it_any(to_it(I, mem, it.rest))
        if z is not None:
            out = It(out.items, z) if out.rest is None else It((), join(it_any(out), z))
    return out


def quant(is_any):
    def f(I, mem, it, a, c):
        unk = False
        ys = []
        for x in it.items:
            y = I.invoke(a[0], [x], mem) if not unk else call_may(I, mem, a[0], [x])
            if y is NEVER:
                return NEVER if not unk else top("quant")
            if y == (1 if is_any else 0):
                if not unk or True:
                    return 1 if is_any else 0
            elif y == (0 if is_any else 1):
                continue
            else:
                unk = True
                ys.append(y)
        if unk and it.rest is None and all(isinstance(y, V) and not inexact(y) for y in ys):
            return ys[0] if len(ys) == 1 else Sym(("anyof" if is_any else "allof",) + tuple(ys))
        if it.rest is not None:
            y = call_may(I, mem, a[0], [it.rest])
            if y is NEVER:
                I.maypanic("closure may panic", mem)
            if y == (0 if is_any else 1):
                pass
            else:
                unk = True
        if unk:
            z = it_any(it)
            return top(I.deep(z, mem))
        return 0 if is_any else 1
    return f


itm("any")(quant(True))
itm("all")(quant(False))


@itm("position")
def i_pos(I, mem, it, a, c):
    unk = []
    for i, x in enumerate(it.items):
        y = I.invoke(a[0], [x], mem)
        if y is NEVER:
            return NEVER
        if y == 1:
            if unk:
                return some(OneOf(tuple(unk) + (i,)))
            return some(i)
        if y != 0:
            unk.append(i)
    if it.rest is not None:
        y = call_may(I, mem, a[0], [it.rest])
        return maybe_opt(top("position"))
    if unk:
        return maybe_opt(OneOf(tuple(unk)) if len(unk) > 1 else unk[0])
    return NONE


@itm("find")
def i_find(I, mem, it, a, c):
    unk = None
    for x in it.items:
        y = I.invoke(a[0], [I.alloc(mem, x)], mem)
        if y is NEVER:
            return NEVER
        if y == 1:
            return some(x if unk is None else join(unk, x))
        if y != 0:
            unk = x if unk is None else join(unk, x)
    if it.rest is not None:
        call_may(I, mem, a[0], [I.alloc(mem, it.rest)])
        unk = it.rest if unk is None else join(unk, it.rest)
    return NONE if unk is None else maybe_opt(unk)


@itm("find_map")
def i_find_map(I, mem, it, a, c):
    r = NONE
    for x in it.items:
        y = I.invoke(a[0], [x], mem)
        if y is NEVER:
            return NEVER
        if type(y) is Agg and y.v == 1 and r == NONE:
            return y
        if type(y) is Agg and y.v == 0:
            continue
        r = join(r, y) if r != NONE else (y if type(y) is Alt else maybe_opt(top(y)))
    if it.rest is not None:
        y = call_may(I, mem, a[0], [it.rest])
        r = join(r, y)
    return r


@itm("fold")
def i_fold(I, mem, it, a, c):
    acc = a[0]
    for x in it.items:
        acc = I.invoke(a[1], [acc, x], mem)
        if acc is NEVER:
            return NEVER
    if it.rest is not None:
        for _ in range(4):
            y = call_may(I, mem, a[1], [acc, it.rest])
            if y is NEVER:
                break
            n = join(acc, y)
            if I.same(n, acc):
                break
            acc = n
        else:
            acc = top(I.deep(acc, mem))
    return acc


@itm("for_each")
def i_for_each(I, mem, it, a, c):
    for x in it.items:
        if I.invoke(a[0], [x], mem) is NEVER:
            return NEVER
    if it.rest is not None:
        for _ in range(3):
            call_may(I, mem, a[0], [it.rest])
    return UNIT


@itm("try_for_each")
def i_try_for_each(I, mem, it, a, c):
    r = None
    for x in it.items:
        y = I.invoke(a[0], [x], mem)
        if y is NEVER:
            return NEVER
        if type(y) is Agg and y.v == 1:
            return y if r is None else join(r, y)
        if type(y) is not Agg:
            r = y if r is None else join(r, y)
    if it.rest is not None:
        y = call_may(I, mem, a[0], [it.rest])
        r = y if r is None else join(r, y)
    return r if r is not None else ok()


@itm("try_fold")
def i_try_fold(I, mem, it, a, c):
    acc = a[0]
    for x in it.items:
        y = I.invoke(a[1], [acc, x], mem)
        if y is NEVER:
            return NEVER
        if type(y) is Agg:
            if y.v == 1:
                return y
            acc = y.f[0]
        else:
            return top(I.deep(y, mem))
    if it.rest is not None:
        return top(I.deep(acc, mem), I.deep(it.rest, mem))
    return ok(acc)


@itm("sum")
def i_sum(I, mem, it, a, c):
    ds = [I.T[x] for x in (c.get("a") or [])[1:] if isinstance(x, int)]
    if ds and tystrip(ds[-1]) in ("core::option::Option", "core::result::Result"):
        good = 1 if "option" in tystrip(ds[-1]) else 0
        acc = 0
        if it.rest is not None:
            return top(I.deep(it_any(it), mem))
        for x in it.items:
            x = I.full(x, mem)
            if type(x) is not Agg:
                return top(I.deep(x, mem))
            if x.v != good:
                return x
            acc, of = I.binop("Add", acc, I.full(x.f[0], mem), tyidx(I, 64, False))
        return Agg(good, (acc,))
    acc = None
    if it.rest is None:
        acc = 0
        for x in it.items:
            x = I.full(x, mem)
            acc, of = I.binop("Add", acc, x, tyidx(I, 64, False))
        return acc
    return top(I.deep(it_any(it), mem))


@itm("count")
def i_count(I, mem, it, a, c):
    return len(it.items) if it.rest is None else top("count")


@itm("last")
def i_last(I, mem, it, a, c):
    if it.rest is None:
        return some(it.items[-1]) if it.items else NONE
    return maybe_opt(it_any(it))


@itm("nth")
def i_nth(I, mem, it, a, c):
    n = a[0]
    if type(n) is int:
        if n < len(it.items):
            return some(it.items[n])
        if it.rest is None:
            return NONE
        return maybe_opt(it.rest)
    z = it_any(it)
    return NONE if z is None else maybe_opt(z)


def _nth(I, mem, args, c, f=MODELS["core::iter::traits::iterator::Iterator::nth"]):
    r = f(I, mem, args, c)
    n = args[1]
    if type(args[0]) is Ref:
        p = innermost(I, args[0], mem)
        it = I.load(p, mem)
        if type(it) is It:
            if type(n) is int:
                I.store(p, It(it.items[n + 1:], it.rest), mem)
            else:
                z = it_any(it)
                I.store(p, It((), z), mem)
    return r


MODELS["core::iter::traits::iterator::Iterator::nth"] = _nth


@itm("max")
def i_max(I, mem, it, a, c):
    vals = [I.full(x, mem) for x in it.items]
    if it.rest is None and vals and all(type(x) is int for x in vals):
        return some(it.items[vals.index((max if c["p"].endswith("max") else min)(vals))])
    z = it_any(it)
    return NONE if z is None else (maybe_opt(z) if not it.items else some(top(I.deep(z, mem))))


MODELS["core::iter::traits::iterator::Iterator::min"] = MODELS["core::iter::traits::iterator::Iterator::max"]


@itm("take_while")
def i_take_while(I, mem, it, a, c):
    out = []
    for x in it.items:
        y = I.invoke(a[0], [I.alloc(mem, x)], mem)
        if y == 1:
            out.append(x)
        elif y == 0:
            return It(out)
        else:
            return It(out, it_any(it))
    return It(out, it.rest)


@itm("skip_while")
def i_skip_while(I, mem, it, a, c):
    for k, x in enumerate(it.items):
        y = I.invoke(a[0], [I.alloc(mem, x)], mem)
        if y == 0:
            return It(it.items[k:], it.rest)
        if y != 1:
            return It((), it_any(It(it.items[k:], it.rest)))
    return It((), it.rest)


@itm("size_hint")
def i_hint(I, mem, it, a, c):
    return Agg(0, (top("hint"), maybe_opt(top("hint"))))


@itm("len", "core::iter::traits::exact_size::ExactSizeIterator::")
def i_len(I, mem, it, a, c):
    return len(it.items) if it.rest is None else top("len")


@itm("partition")
def i_partition(I, mem, it, a, c):
    z = it_any(it)
    s = Seq((Chunk(top(I.deep(z, mem)).t, z),)) if z is not None else Seq(())
    return Agg(0, (s, s))


@itm("eq")
def i_eq(I, mem, it, a, c):
    o = to_it(I, mem, a[0])
    if it.rest is None and o.rest is None:
        return boolv(I, "Eq", Seq(it.items), Seq(o.items), mem)
    return top(I.deep(it_any(it) or 0, mem))


def it_seq(I, mem, it, t2=None):
    items = it.items
    if t2 is not None and t2["k"] != "ref" and items and all(type(x) is Ref for x in items) and t2.get("k") in ("uint", "int", "char"):
        items = tuple(I.load(x, mem) for x in items)
        it = It(items, None if it.rest is None else I.load(it.rest, mem))
    if it.rest is not None:
        return Seq(tuple(it.items) + (Chunk(top(I.deep(it.rest, mem)).t if not (type(it.rest) is Sym and not is_top(it.rest)) else ("collect", it.rest.t), it.rest),))
    return Seq(it.items)


def collect_string(I, mem, it):
    out = ()
    for x in it.items:
        y = I.full(x, mem)
        if type(y) is Seq:
            out += y.e
        else:
            z = char_seq(y)
            out += z.e if type(z) is Seq else chunk_of(y).e
    if it.rest is not None:
        d = I.deep(it.rest, mem)
        out += (Chunk(("collect", I.tm(d)) if not has_top(d) else top(d).t),)
    return Seq(out)


@itm("collect")
def i_collect(I, mem, it, a, c):
    dst = garg(I, c, 1)
    return collect_into(I, mem, it, dst)


def collect_into(I, mem, it, dst):
    p = tystrip(dst)
    if p == "alloc::string::String":
        return collect_string(I, mem, it)
    if p == "core::result::Result" or p == "core::option::Option":
        good = 0 if "Result" in p else 1
        inner = I.T[dst["args"][0]] if dst.get("args") and isinstance(dst["args"][0], int) else {"k": "?", "s": "?"}
        vals = []
        bad = None
        for x in it.items:
            if type(x) is Agg:
                if x.v == good:
                    vals.append(x.f[0])
                    continue
                bad = x.f if bad is None else tuple(join(p1, p2) for p1, p2 in zip(bad, x.f))
                r = Agg(1 - good, bad)
                if all(type(y) is Agg for y in it.items[:it.items.index(x)]):
                    return r
                return r
            if type(x) is Alt:
                vals.append(x.a[good][0])
                b = x.a[1 - good]
                bad = b if bad is None else tuple(join(p1, p2) for p1, p2 in zip(bad, b))
            else:
                vals.append(top(x))
                bad = (top(x),) if good == 0 else ()
        rest = None
        if it.rest is not None:
            x = it.rest
            if type(x) is Agg and x.v == good:
                rest = x.f[0]
            elif type(x) is Alt:
                rest = x.a[good][0]
                b = x.a[1 - good]
                bad = b if bad is None else tuple(join(p1, p2) for p1, p2 in zip(bad, b))
            elif type(x) is Agg:
                bad = x.f
            else:
                rest = top(x)
                bad = (top(x),) if good == 0 else ()
        s = collect_into(I, mem, It(vals, rest), inner)
        if bad is None:
            return Agg(good, (s,))
        return Alt({good: (s,), 1 - good: bad})
    if "Map" in p and "serde_json::value" not in p:
        return tidy(p, map_from_it(I, mem, it, MapV(())))
    if p.endswith("Set"):
        return set_from_it(I, mem, it, MapV(()), p)
    return it_seq(I, mem, it, I.T[dst["args"][0]] if dst.get("args") and isinstance(dst["args"][0], int) else None)


MODELS["core::iter::traits::collect::FromIterator::from_iter"] = lambda I, mem, args, c: collect_into(I, mem, to_it(I, mem, args[0]), garg(I, c))


def map_from_it(I, mem, it, m):
    for x in it.items:
        if type(x) is Agg and len(x.f) == 2:
            m = map_put(I, m, I.full(x.f[0], mem), x.f[1])
        else:
            m = MapV(m.items, True, top(x) if m.rest is None else join(m.rest, top(x)))
    if it.rest is not None:
        v = it.rest.f[1] if type(it.rest) is Agg and len(it.rest.f) == 2 else top(it.rest)
        m = MapV(tuple((k, join(y, v)) for k, y in m.items), True, v if m.rest is None else join(m.rest, v))
    return m


@model("core::iter::sources::once::once")
def it_once(I, mem, args, c):
    return It((args[0],))


@model("core::iter::sources::empty::empty")
def it_empty(I, mem, args, c):
    return It(())


@model("core::iter::sources::repeat::repeat", "core::iter::sources::repeat_n::repeat_n")
def it_repeat(I, mem, args, c):
    if len(args) == 2 and type(args[1]) is int and args[1] < 2000000:
        return It((args[0],) * args[1])
    return RepIt(args[0]) if len(args) == 1 else It((), args[0])


def RepIt(v):
    # long enough for every take() in practice, with an unknown tail
    return It((v,) * 256, v)


# ------------------------------------------------------------------ maps
@model("indexmap::map::IndexMap::new", "std::collections::hash::map::HashMap::new", "serde_json::map::Map::new",
       "indexmap::map::IndexMap::with_capacity")
def map_new(I, mem, args, c):
    return MapV(())


def keyof(I, k, mem):
    k = I.full(k, mem)
    if type(k) is Seq and not k.chunked:
        return k
    return k


INSET = Agg(0, (Seq((("in-set"),)),))     # the value behind every key of a set


def isset(m):
    return bool(m.items) and all(v is INSET or v == INSET for _, v in m.items)


def tidy(p, m):
    """ordered collections keep their keys sorted"""
    if "BTree" not in p or m.open:
        return m
    ks = [k for k, _ in m.items]
    if all(type(k) is int for k in ks):
        return MapV(sorted(m.items, key=lambda z: z[0]))
    if all(type(k) is Seq for k in ks):
        return MapV(sorted(m.items, key=lambda z: z[0].e))
    return m


def set_put(I, m, k):
    if conc(k):
        return map_put(I, m, k, INSET), (0 if any(kk == k for kk, _ in m.items) else 1 if not m.open else top(m))
    for kk, _ in m.items:
        if eqv(I, kk, k, None) is not False:
            return MapV(m.items, True, None), top(m, k)
    if not m.open and type(k) is not Alt and not has_top(k):
        return MapV(m.items + ((k, INSET),)), 1
    return MapV(m.items, True, None), top(m, k)


SETS = ("std::collections::hash::set::HashSet::", "alloc::collections::btree::set::BTreeSet::", "indexmap::set::IndexSet::")
MAPS = ("std::collections::hash::map::HashMap::", "alloc::collections::btree::map::BTreeMap::", "indexmap::map::IndexMap::")


def on_sets(*names):
    def w(f):
        for s in SETS:
            for n in names:
                MODELS[s + n] = f
        return f
    return w


@on_sets("new", "with_capacity")
def set_new(I, mem, args, c):
    return MapV(())


@on_sets("insert")
def set_insert(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    if type(m) is not MapV:
        m = MapV((), True, None)
    m, new = set_put(I, m, keyof(I, args[1], mem))
    I.store(r, tidy(c["p"], m), mem)
    return new


@on_sets("contains")
def set_contains(I, mem, args, c):
    m = I.full(args[0], mem)
    k = keyof(I, args[1], mem)
    if type(m) is not MapV:
        return top(I.deep(m, mem))
    es = [eqv(I, kk, k, None) for kk, _ in m.items]
    if any(e is True for e in es):
        return 1
    return 0 if not m.open and all(e is False for e in es) else top(m, k)


@on_sets("remove")
def set_remove(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    k = keyof(I, args[1], mem)
    if type(m) is MapV and not m.open and conc(k) and all(conc(kk) for kk, _ in m.items):
        n = tuple(x for x in m.items if x[0] != k)
        I.store(r, MapV(n), mem)
        return int(len(n) < len(m.items))
    I.store(r, MapV((), True, None), mem)
    return top(I.deep(m, mem))


@on_sets("len")
def set_len(I, mem, args, c):
    return lenm(I, mem, args, c)


@on_sets("is_empty")
def set_empty(I, mem, args, c):
    return emptym(I, mem, args, c)


@on_sets("iter", "into_iter")
def set_iter(I, mem, args, c):
    return to_it(I, mem, args[0])


@on_sets("first", "last")
def set_ends(I, mem, args, c):
    it = to_it(I, mem, args[0])
    if it.rest is None:
        return some(it.items[0 if c["p"].endswith("first") else -1]) if it.items else NONE
    return maybe_opt(it_any(it))


def set_from_it(I, mem, it, m, p):
    for x in it.items:
        m, _ = set_put(I, m, I.full(x, mem))
    if it.rest is not None:
        m = MapV(m.items, True, None)
    return tidy(p, m)


@model(*[m + "retain" for m in MAPS + SETS], "alloc::vec::Vec::retain", "alloc::vec::Vec::retain_mut", "alloc::string::String::retain")
def retain(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    if type(m) is MapV and not m.open:
        out = []
        for k, v in m.items:
            a = [I.const_ref(k)] + ([] if isset(m) else [Ref(r.b, r.p + (("k", k),)) if conc(k) else I.alloc(mem, v)])
            y = I.invoke(args[1], a, mem)
            if y is NEVER:
                return NEVER
            if y == 1:
                out.append((k, I.load(Ref(r.b, r.p + (("k", k),)), mem) if conc(k) and not isset(m) else v))
            elif y != 0:
                I.store(r, top(I.deep(m, mem)), mem)
                return UNIT
        I.store(r, MapV(out), mem)
        return UNIT
    s = asseq(I, args[0], mem)
    if type(s) is Seq:
        if "String" in c["p"]:
            it = chars_it(I, mem, s, s)
            xs = it.items if it.rest is None else None
        else:
            xs = None if s.chunked else s.e
        if xs is not None:
            out = []
            for x in xs:
                z = I.alloc(mem, x) if "String" not in c["p"] else x
                y = I.invoke(args[1], [z], mem)
                if y is NEVER:
                    return NEVER
                if y == 1:
                    x = I.load(z, mem) if type(z) is Ref else x
                    out += [x] if "String" not in c["p"] else list(char_seq(x).e)
                elif y != 0:
                    out = None
                    break
            if out is not None:
                mutate(I, mem, args[0], lambda _: Seq(tuple(out)))
                return UNIT
        if "String" not in c["p"]:
            I.store(r, Seq((Chunk(top(s).t, I.seq_any(s)),)), mem)
            return UNIT
    I.store(r, top(I.deep(m, mem)), mem)
    return UNIT


def ordering(I, y):
    """-1, 0, 1 of a concrete Ordering"""
    return y.v - 1 if type(y) is Agg and y.v in (0, 1, 2) else y if type(y) is int and -1 <= y <= 1 else None


def sort_with(I, mem, xs, less):
    """stable insertion sort asking less(a, b); None when some answer is open"""
    out = []
    for x in xs:
        i = len(out)
        while i > 0:
            y = less(x, out[i - 1])
            if y is None:
                return None
            if not y:
                break
            i -= 1
        out.insert(i, x)
    return out


SL = ("alloc::slice::<impl [T]>::", "core::slice::<impl [T]>::")


@model(*[a + b for a in SL for b in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by_key")])
def vsort_by(I, mem, args, c):
    s = asseq(I, args[0], mem)
    out = None
    if type(s) is Seq and not s.chunked:
        if "key" in c["p"]:
            ks = [I.full(I.invoke(args[1], [I.alloc(mem, x)], mem), mem) for x in s.e]
            good = all(type(k) is int for k in ks) or all(type(k) is Rat for k in ks) or all(conc(k) for k in ks)
            if good:
                f = (lambda z: ks[z]) if all(type(k) is int for k in ks) else (lambda z: ks[z].q) if ks and type(ks[0]) is Rat else (lambda z: ks[z].e)
                out = [s.e[i] for i in sorted(range(len(ks)), key=f)]
        else:
            def less(a, b):
                o = ordering(I, I.invoke(args[1], [I.alloc(mem, a), I.alloc(mem, b)], mem))
                return None if o is None else o < 0
            out = sort_with(I, mem, s.e, less)
    mutate(I, mem, args[0], lambda s: Seq(tuple(out)) if out is not None else Seq((Chunk(top(s).t, I.seq_any(s)),)) if len(s.e) > 1 else s)
    return UNIT


@model("alloc::vec::Vec::dedup_by_key", "alloc::vec::Vec::dedup_by")
def vdedup_by(I, mem, args, c):
    s = asseq(I, args[0], mem)
    out = None
    if type(s) is Seq and not s.chunked:
        out = []
        key = lambda x: I.full(I.invoke(args[1], [I.alloc(mem, x)], mem), mem)
        for x in s.e:
            if out:
                e = eqv(I, key(out[-1]), key(x), mem) if c["p"].endswith("key") else \
                    {1: True, 0: False}.get(I.invoke(args[1], [I.alloc(mem, x), I.alloc(mem, out[-1])], mem))
                if e is None:
                    out = None
                    break
                if e:
                    continue
            out.append(x)
    mutate(I, mem, args[0], lambda s: Seq(tuple(out)) if out is not None else Seq((Chunk(top(s).t, I.seq_any(s)),)))
    return UNIT


def conc(k):
    return type(k) is Seq and not k.chunked and all(type(x) is int for x in k.e) or type(k) is int


def map_put(I, m, k, v):
    if conc(k):
        out = []
        hit = False
        for kk, vv in m.items:
            if kk == k:
                out.append((kk, v))
                hit = True
            else:
                out.append((kk, vv))
        if not hit:
            out.append((k, v))
        return MapV(out, m.open, m.rest)
    return MapV(tuple((kk, join(vv, v)) for kk, vv in m.items), True, v if m.rest is None else join(m.rest, v))


@model("indexmap::map::IndexMap::insert", "std::collections::hash::map::HashMap::insert", "serde_json::map::Map::insert")
def map_insert(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    if type(m) is not MapV:
        m = MapV((), True, top(m))
    k = keyof(I, args[1], mem)
    old = map_lookup(I, m, k)
    I.store(r, map_put(I, m, k, args[2]), mem)
    if old is None:
        return NONE
    if old[1]:
        return some(old[0])
    return maybe_opt(old[0])


def map_lookup(I, m, k):
    """None (absent) | (value, certain)"""
    if conc(k):
        for kk, vv in m.items:
            if kk == k:
                return vv, True
        if m.open:
            return (m.rest if m.rest is not None else top(m)), False
        return None
    if not m.open:
        es = [eqv(I, kk, k, None) for kk, _ in m.items]
        if all(e is False for e in es):
            return None
        for e, (_, vv) in zip(es, m.items):
            if e is True:
                return vv, True
    r = None
    for _, vv in m.items:
        r = vv if r is None else join(r, vv)
    if m.rest is not None:
        r = m.rest if r is None else join(r, m.rest)
    if r is None and not m.open:
        return None
    return (r if r is not None else top(m)), False


@model("indexmap::map::IndexMap::contains_key", "std::collections::hash::map::HashMap::contains_key", "serde_json::map::Map::contains_key")
def map_contains(I, mem, args, c):
    m = I.full(args[0], mem)
    k = keyof(I, args[1], mem)
    if type(m) is MapV:
        l = map_lookup(I, m, k)
        if l is None:
            return 0
        if l[1]:
            return 1
        return Sym(("has", k, "map")) if conc(k) and False else top(m, k)
    if type(m) is Sym and not is_top(m) and conc(k):
        return Sym(("haskey", m.t, k))
    return top(I.deep(m, mem))


@model("indexmap::map::IndexMap::get", "indexmap::map::IndexMap::get_mut", "std::collections::hash::map::HashMap::get",
       "serde_json::map::Map::get", "serde_json::map::Map::get_mut", "std::collections::hash::map::HashMap::get_mut")
def map_get(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    k = keyof(I, args[1], mem)
    if type(m) is MapV:
        l = map_lookup(I, m, k)
        if l is None:
            return NONE
        rr = Ref(r.b, r.p + (("k", k),)) if conc(k) else I.alloc(mem, l[0])
        if l[1]:
            return some(rr)
        return maybe_opt(rr)
    if type(m) is Sym and not is_top(m) and conc(k):
        return maybe_opt(Ref(r.b, r.p + (("k", k),)))
    return maybe_opt(I.alloc(mem, top(I.deep(m, mem))))


def map_index(I, mem, args, it):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    k = keyof(I, args[1], mem)
    if it["k"] == "uint":
        if type(m) is MapV and type(k) is int and not m.open:
            if k >= len(m.items):
                return I.panic("IndexMap: index out of bounds", mem)
            return Ref(r.b, r.p + (("k", m.items[k][0]),))
        I.maypanic("map index", mem)
        return I.alloc(mem, top(I.deep(m, mem)))
    if type(m) is MapV:
        l = map_lookup(I, m, k)
        if l is None:
            return I.panic("IndexMap: key not found %s" % show(k), mem)
        if not l[1]:
            I.maypanic("IndexMap: key may be missing", mem)
        return Ref(r.b, r.p + (("k", k),)) if conc(k) else I.alloc(mem, l[0])
    I.maypanic("IndexMap: key may be missing", mem)
    if type(m) is Sym and not is_top(m) and conc(k):
        return Ref(r.b, r.p + (("k", k),))
    return I.alloc(mem, top(I.deep(m, mem)))


@model("indexmap::map::IndexMap::shift_remove", "indexmap::map::IndexMap::swap_remove", "indexmap::map::IndexMap::remove", "std::collections::hash::map::HashMap::remove")
def map_remove(I, mem, args, c):
    r = innermost(I, args[0], mem)
    m = I.load(r, mem)
    k = keyof(I, args[1], mem)
    if type(m) is MapV and conc(k):
        l = map_lookup(I, m, k)
        items = [x for x in m.items if x[0] != k]
        if not c["p"].endswith("shift_remove") and len(items) > 1 and "HashMap" not in c["p"]:
            # swap_remove perturbs the order
            idx = next((i for i, x in enumerate(m.items) if x[0] == k), None)
            if idx is not None and idx < len(m.items) - 1:
                items = list(m.items)
                items[idx] = items.pop()
        I.store(r, MapV(items, m.open, m.rest), mem)
        if l is None:
            return NONE
        return some(l[0]) if l[1] else maybe_opt(l[0])
    I.store(r, top(I.deep(m, mem)), mem)
    return maybe_opt(top(I.deep(m, mem)))


for _n in [n for n in MODELS if n.startswith("std::collections::hash::map::HashMap::")]:
    _f = MODELS[_n]

    def _tidied(I, mem, args, c, f=_f):
        y = f(I, mem, args, c)
        if args and type(args[0]) is Ref:
            r = innermost(I, args[0], mem)
            m = I.load(r, mem)
            if type(m) is MapV:
                n = tidy("BTree", m)
                if n != m:
                    I.store(r, n, mem)
        return y
    MODELS.setdefault(_n.replace("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"), _tidied)


# ------------------------------------------------------------------ formatting
@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug", "core::fmt::rt::Argument::new_lower_hex",
       "core::fmt::rt::Argument::new_upper_hex", "core::fmt::rt::Argument::from_usize", "core::fmt::rt::Argument::new_binary",
       "core::fmt::rt::Argument::new_octal")
def fmt_arg(I, mem, args, c):
    kind = c["p"].rsplit("::", 1)[1].replace("new_", "")
    kind = _re.sub(r"<.*", "", kind)
    a = c.get("a") or []
    ty = a[-1] if a and isinstance(a[-1], int) else None
    return Agg(77, (kind, ty if ty is not None else -1, args[0]))


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new_const")
def fmt_from_str(I, mem, args, c):
    s = asseq(I, args[0], mem)
    return Agg(78, (s,))


@model("core::fmt::Arguments::new")
def fmt_new(I, mem, args, c):
    t = sbytes(asseq(I, args[0], mem) or Seq((Chunk(("?",)),)))
    av = I.full(args[1], mem)
    if t is None or type(av) is not Seq:
        return Agg(78, (chunk_of("format"),))
    out = ()
    i = 0
    nxt = 0
    exact = True
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out += tuple(t[i:i + b])
            i += b
        elif b == 0x80:
            n = t[i] | t[i + 1] << 8
            i += 2
            out += tuple(t[i:i + n])
            i += n
        else:
            flags, width, prec = 0, 0, 0
            hasw = False
            if b & 1:
                flags = int.from_bytes(t[i:i + 4], "little")
                i += 4
            if b & 2:
                width = t[i] | t[i + 1] << 8
                hasw = True
                i += 2
            if b & 4:
                prec = t[i] | t[i + 1] << 8
                i += 2
            if b & 8:
                nxt = t[i] | t[i + 1] << 8
                i += 2
            if b & 0x10:  # width from an argument
                w = av.e[width] if width < len(av.e) else None
                x = I.full(w.f[2], mem) if type(w) is Agg else None
                if type(x) is int:
                    width = x
                else:
                    width = None
            hasprec = (b & 4) or (b & 0x20)
            if hasprec:
                if b & 0x20:  # precision from an argument
                    w = av.e[prec] if prec < len(av.e) else None
                    x = I.full(w.f[2], mem) if type(w) is Agg else None
                    hasprec = Agg(0, (x,)) if type(x) is int else True
                else:
                    hasprec = Agg(0, (prec,))
            s = render(I, mem, av.e[nxt] if nxt < len(av.e) else None, flags, width, hasw or bool(b & 0x10), hasprec)
            nxt += 1
            out += s.e
    return Agg(78, (Seq(out),))


def render(I, mem, a, flags, width, hasw, hasprec):
    if type(a) is not Agg or a.v != 77:
        return chunk_of("format")
    kind, ti, ref = a.f
    v = I.full(ref, mem)
    t = I.T[ti] if ti >= 0 else {"k": "?", "s": "?"}
    while t["k"] == "ref":
        t = I.T[t["t"]]
    plus, alt = bool(flags & 1 << 21), bool(flags & 1 << 23)
    if hasprec:
        prec = hasprec if type(hasprec) is Agg else None
        if prec is not None and t["k"] == "float" and type(v) is float and kind == "display" and v == v and abs(v) != float("inf"):
            s = S(("%%.%df" % prec.f[0]) % v)
        elif prec is not None and (t["k"] == "str" or tystrip(t) == "alloc::string::String") and kind == "display" and sstr_ok(v):
            s = Seq(tuple(sstr(v)[:prec.f[0]].encode()))
        else:
            return chunk_of(I.deep(v, mem))
    else:
        if alt and kind == "debug" and t["k"] not in ("int", "uint", "bool", "char", "str"):
            return chunk_of(I.deep(v, mem))
        s = render_val(I, mem, kind, v, t, ref)
    isnum = t["k"] in ("int", "uint", "float")
    sign = ()
    if isnum and (plus or alt):
        e = s.e
        if s.chunked and e and type(e[0]) is Chunk and plus:
            return chunk_of(s)
        if e[:1] == (45,):
            sign, e = (45,), e[1:]
        elif plus:
            sign = (43,)
        if alt and kind in ("lower_hex", "upper_hex", "binary", "octal"):
            sign += tuple({"lower_hex": b"0x", "upper_hex": b"0x", "binary": b"0b", "octal": b"0o"}[kind])
        s = Seq(sign + e)
    elif isnum and s.e[:1] == (45,):
        sign = (45,)
    if hasw and width is not None:
        n = I.seqlen(s)
        zero = bool(flags & (1 << 24))
        fill = flags & 0x1FFFFF
        if fill == 0:
            fill = 32
        align = (flags >> 29) & 3
        if kind == "lower_hex" and zero and not sign and type(v) is Bits and -1 not in v.b and all(b == 0 for b in v.b[4 * width:]):
            b = tobits(v, max(4 * width, len(v.b)))
            return Seq(tuple(mkhex(b[4 * i:4 * i + 4]) for i in reversed(range(width))))
        if type(n) is int:
            if not s.chunked and n >= width:
                return s
            pad = max(0, width - n)
            if zero and isnum:
                return Seq(sign + (48,) * pad + s.e[len(sign):])
            if pad == 0:
                return s
            if align == 0 or (align == 3 and not isnum):
                return Seq(s.e + (fill,) * pad)
            if align == 1 or (align == 3 and isnum):
                return Seq((fill,) * pad + s.e)
            l = pad // 2
            return Seq((fill,) * l + s.e + (fill,) * (pad - l))
        if len(s.e) == 1 and type(s.e[0]) is Chunk and not has_top(s):
            return Seq((Chunk(("pad", width, 48 if zero else fill, align, s.e[0].t), None),))
        return chunk_of(s)
    if hasw:
        return chunk_of(s)
    return s


def sstr_ok(v):
    return type(v) is Seq and sstr(v) is not None


def render_val(I, mem, kind, v, t, ref):
    tv = type(v)
    if kind == "display":
        if tv is Rat:
            return S(str(v.q))
        if tv is Obj and v.k == "clocktext":
            return v.f[0]
        if t["k"] in ("str",) or tystrip(t) == "alloc::string::String":
            if tv is Seq:
                return v
            if tv is OneOf:
                return chunk_of(v) if not all(type(x) is Seq for x in v.vs) else Seq((Chunk(("display", v)),))
            if tv is Sym:
                return Seq((Chunk(v.t),))
        if t["k"] in ("int", "uint"):
            if tv is int:
                return S(str(v))
            if tv is Sym and is_top(v):
                return chunk_of(v)
            return Seq((Chunk(("dec", v)),))
        if t["k"] == "bool":
            if tv is int:
                return S("true" if v else "false")
            return Seq((Chunk(("bool", v)),))
        if t["k"] == "char":
            r = char_seq(v)
            return r
        if t["k"] == "adt" and t.get("local"):
            fi = find_impl(I, "core::fmt::Display", t, "fmt")
            if fi is not None and "body" in I.F[fi]:
                f = I.alloc(mem, Agg(79, (Seq(()),)))
                r = I.call(fi, [ref if type(ref) is Ref else I.alloc(mem, v), f], mem)
                if r is not NEVER:
                    b = I.load(f, mem)
                    if type(b) is Agg and b.v == 79 and type(b.f[0]) is Seq:
                        return b.f[0]
                return chunk_of(I.deep(v, mem))
        if tystrip(t) == "alloc::borrow::Cow":
            x = cow_value(I, v, mem)
            if type(x) is Seq:
                return x
    if kind in ("binary", "octal") and tv is int:
        return S(("{:b}" if kind == "binary" else "{:o}").format(v if v >= 0 else v + (1 << t["bits"])))
    if kind in ("lower_hex", "upper_hex") and tv is int and v < 0 and t.get("bits"):
        v += 1 << t["bits"]
    if kind in ("lower_hex", "upper_hex"):
        if tv is int and v >= 0:
            return S("%x" % v if kind == "lower_hex" else "%X" % v)
        if tv is Bits and kind == "lower_hex" and -1 not in v.b:
            b = list(v.b)
            while b and b[-1] == 0:
                b.pop()
            if b and b[-1] == 1:  # the number of digits is certain
                b += [0] * (-len(b) % 4)
                return Seq(tuple(mkhex(tuple(b[i:i + 4])) for i in reversed(range(0, len(b), 4))))
        if tv is Sym and not is_top(v) or tv is Bits and -1 not in v.b:
            return Seq((Chunk(("hex" if kind == "lower_hex" else "HEX", v)),))
    if kind == "debug" and tv is int and t["k"] in ("int", "uint", "bool"):
        return S(str(v) if t["k"] != "bool" else "true" if v else "false")
    if kind == "debug" and tv is int and t["k"] == "char" and 32 <= v < 127:
        return S("'%s'" % {39: "\\'", 92: "\\\\"}.get(v, chr(v)))
    if kind == "debug" and tv is Seq and sstr(v) is not None and (t["k"] == "str" or tystrip(t) == "alloc::string::String") and sstr(v).isprintable() and sstr(v).isascii():
        return S('"%s"' % sstr(v).replace("\\", "\\\\").replace('"', '\\"'))
    if kind == "debug" and tv is Agg and t["k"] == "adt" and t.get("local"):
        fi = find_impl(I, "core::fmt::Debug", t, "fmt")
        if fi is not None and "body" in I.F[fi]:
            f = I.alloc(mem, Agg(79, (Seq(()),)))
            r = I.call(fi, [ref if type(ref) is Ref else I.alloc(mem, v), f], mem)
            if type(r) is Agg and r.v == 0:
                b = I.load(f, mem)
                if type(b) is Agg and b.v == 79 and type(b.f[0]) is Seq and b.f[0].e:
                    return b.f[0]
    if kind == "debug" and tv is Seq and t["k"] == "str" and sstr(v) is not None and sstr(v).isprintable() and '"' not in sstr(v) and "\\" not in sstr(v):
        return S('"%s"' % sstr(v))
    d = I.deep(v, mem)
    if kind == "display":
        import models_json
        x = models_json.display(d, t)
        if x is not None:
            return x
    if has_top(d):
        return chunk_of(d)
    try:
        hash(d)
        return Seq((Chunk((kind, d)),))
    except TypeError:
        return chunk_of(d)


def find_impl(I, trait, t, method):
    for im in I.facts["impls"]:
        if im.get("trait") == trait and im.get("self") is not None and im["self"] == t["s"]:
            for n, inst in im.get("methods") or []:
                if n == method:
                    return inst
    return None


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(I, mem, args, c):
    a = args[0]
    if type(a) is Agg and a.v == 78:
        return a.f[0]
    return chunk_of(I.deep(a, mem))


def fmt_push(I, mem, f, s):
    r = innermost(I, f, mem)
    b = I.load(r, mem)
    if type(b) is Agg and b.v == 79 and type(b.f[0]) is Seq:
        I.store(r, Agg(79, (seqcat(b.f[0], s),)), mem)
    elif type(b) is Seq:
        I.store(r, seqcat(b, s), mem)


@model("core::fmt::Formatter::write_str", "core::fmt::Write::write_str")
def f_write_str(I, mem, args, c):
    s = asseq(I, args[1], mem)
    fmt_push(I, mem, args[0], s if type(s) is Seq else chunk_of(I.deep(args[1], mem)))
    return ok()


@model("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt")
def f_write_fmt(I, mem, args, c):
    a = args[1]
    s = a.f[0] if type(a) is Agg and a.v == 78 else chunk_of(I.deep(a, mem))
    fmt_push(I, mem, args[0], s)
    return ok()


@model("core::fmt::Formatter::write_char", "core::fmt::Write::write_char")
def f_write_char(I, mem, args, c):
    fmt_push(I, mem, args[0], char_seq(args[1]))
    return ok()


@model("core::fmt::Display::fmt", "core::fmt::LowerHex::fmt", "core::fmt::Debug::fmt")
def f_fmt(I, mem, args, c):
    t = garg(I, c)
    tt = t
    ti = (c.get("a") or [None])[0]
    while tt["k"] == "ref":
        tt = I.T[tt["t"]]
    if tt["k"] == "adt" and tt.get("local"):
        return NI
    kind = {"Display": "display", "LowerHex": "lower_hex", "Debug": "debug"}[c["p"].split("::")[2].split("<")[0]]
    fmt_push(I, mem, args[1], render(I, mem, Agg(77, (kind, ti if ti is not None else -1, args[0])), 0, 0, False, False))
    return ok()


@model("alloc::string::ToString::to_string")
def to_string(I, mem, args, c):
    a = c.get("a") or []
    ti = a[0] if a and isinstance(a[0], int) else -1
    return render(I, mem, Agg(77, ("display", ti, args[0])), 0, 0, False, False)


for n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish",
          "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish"):
    MODELS["core::fmt::Formatter::" + n] = lambda I, mem, args, c: maybe(UNIT)


@model("thiserror::display::AsDisplay::as_display")
def as_display(I, mem, args, c):
    return args[0]


@model("core::ops::arith::Add::add")
def add(I, mem, args, c):
    t = garg(I, c)
    if tystrip(t) == "alloc::string::String":
        a, b = asseq(I, args[0], mem), asseq(I, args[1], mem)
        if type(a) is OneOf and type(b) is Seq:
            r = None
            for x in a.vs:
                y = seqcat(x, b)
                r = y if r is None else join(r, y)
            return r
        if type(a) is Seq and type(b) is OneOf:
            r = None
            for x in b.vs:
                y = seqcat(a, x)
                r = y if r is None else join(r, y)
            return r
        if type(a) is Seq and type(b) is Seq:
            return seqcat(a, b)
        return chunk_of(I.deep(args[0], mem), I.deep(args[1], mem))
    a, b = I.full(args[0], mem), I.full(args[1], mem)
    if type(a) is Rat and type(b) is Rat:
        r = ratadd(a, b, t)
        return r if r is not None else I.panic("attempt to add or multiply with overflow", mem)
    return NI


def ratadd(a, b, t, sub=False):
    """num_rational's sum over a machine integer type: None when an intermediate result does not fit"""
    import math
    import re
    m = re.search(r"Ratio<i(\d+)>", t["s"])
    lim = 1 << (int(m.group(1)) - 1) if m else None
    an, ad, bn, bd = a.q.numerator, a.q.denominator, b.q.numerator, b.q.denominator
    if ad == bd:
        xs = [an - bn if sub else an + bn]
    else:
        lcm = ad * bd // math.gcd(ad, bd)
        x, y = an * (lcm // ad), bn * (lcm // bd)
        xs = [lcm, x, y, x - y if sub else x + y]
    if lim is not None and any(not -lim <= x < lim for x in xs):
        return None
    return Rat(a.q - b.q if sub else a.q + b.q)


@model("core::ops::arith::Sub::sub")
def sub_(I, mem, args, c):
    a, b = I.full(args[0], mem), I.full(args[1], mem)
    if type(a) is Rat and type(b) is Rat:
        r = ratadd(a, b, garg(I, c), True)
        return r if r is not None else I.panic("attempt to subtract or multiply with overflow", mem)
    return NI


@model("num_traits::ops::checked::CheckedAdd::checked_add")
def rat_cadd(I, mem, args, c):
    a, b = I.full(args[0], mem), I.full(args[1], mem)
    if type(a) is Rat and type(b) is Rat:
        r = ratadd(a, b, garg(I, c))
        return NONE if r is None else some(r)
    return NI


@model("core::ops::arith::AddAssign::add_assign")
def add_assign(I, mem, args, c):
    t = garg(I, c)
    if tystrip(t) == "alloc::string::String":
        push_str(I, mem, args, c)
        return UNIT
    r = innermost(I, args[0], mem)
    a, b = I.load(r, mem), I.full(args[1], mem)
    if type(a) is Rat and type(b) is Rat:
        v = ratadd(a, b, t)
        if v is None:
            return I.panic("attempt to add or multiply with overflow", mem)
        I.store(r, v, mem)
        return UNIT
    if "Ratio" in t["s"]:
        I.store(r, ratsum(a, b), mem)
        return UNIT
    return NI


def ratsum(a, b):
    """multiset sum of symbolic weights"""
    if is_top(a) or is_top(b) if type(a) is Sym and type(b) is Sym else False:
        return top(a, b)
    if type(a) is Sym and is_top(a) or type(b) is Sym and is_top(b):
        return top(a, b)

    def terms(x):
        if type(x) is Rat:
            return [] if x.q == 0 else [x]
        if type(x) is Sym and isinstance(x.t, tuple) and x.t[0] == "sum":
            return list(x.t[1])
        return [x]
    ts = terms(a) + terms(b)
    if not ts:
        return Rat(0)
    if len(ts) == 1:
        return ts[0]
    return Sym(("sum", tuple(sorted(ts, key=show))))


# ------------------------------------------------------------------ rationals
@model("num_rational::Ratio::new")
def rat_new(I, mem, args, c):
    a, b = args
    from fractions import Fraction
    if type(a) is int and type(b) is int:
        if b == 0:
            return I.panic("denominator == 0", mem)
        return Rat(Fraction(a, b))
    z = I.eq(b, 0)
    if z is True:
        return I.panic("denominator == 0", mem)
    if z is None:
        r = I.rng(b)
        if not (r and (r[0] > 0 or r[1] < 0)):
            I.maypanic("denominator may be zero", mem)
    if is_top(a) or is_top(b):
        return top(a, b)
    return Sym(("ratio", I.tm(a), I.tm(b)))


@model("num_rational::Ratio::numer", "num_rational::Ratio::denom")
def rat_numer(I, mem, args, c):
    v = I.full(args[0], mem)
    n = "numer" if c["p"].endswith("numer") else "denom"
    if type(v) is Rat:
        return I.const_ref(v.q.numerator if n == "numer" else v.q.denominator)
    if type(v) is Sym and not is_top(v):
        return I.alloc(mem, Sym((n, v.t)))
    return I.alloc(mem, top(v))


@model("num_rational::Ratio::from_integer")
def rat_int(I, mem, args, c):
    from fractions import Fraction
    if type(args[0]) is int:
        return Rat(Fraction(args[0]))
    return top(args[0]) if is_top(args[0]) else Sym(("ratio", I.tm(args[0]), 1))


# ------------------------------------------------------------------ base64
def engine(I, mem, v):
    """(alphabet, pad) of a base64 engine value"""
    e = I.deep(v, mem)
    if type(e) is Agg:
        tab = None
        pad = None
        for x in e.f:
            if type(x) is Seq and len(x.e) == 64:
                tab = bytes(x.e).decode()
            if type(x) is Agg:
                pad = x.f
        return tab, pad
    return None


@model("base64::engine::Engine::encode")
def b64_encode(I, mem, args, c):
    eng = engine(I, mem, args[0])
    s = asseq(I, args[1], mem)
    return enc(I, eng, s)


STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def enc(I, eng, s):
    if type(s) is not Seq or s.chunked:
        if type(s) is Seq and eng and eng[0] == STD and not has_top(s):
            return Seq((Chunk(("b64", s)),))
        return chunk_of(s) if s is not None else chunk_of("b64")
    if eng is None or eng[0] != STD:
        return chunk_of(s, "non-url-safe base64 alphabet")
    pad = True
    for x in eng[1] or ():
        pass
    if eng[1] is not None:
        # GeneralPurposeConfig { encode_padding, decode_allow_trailing_bits, decode_padding_mode }
        pad = eng[1][0] == 1
    return Seq(tuple(b64enc(s.e, pad)))


@model("base64::engine::Engine::encode_slice")
def b64_encode_slice(I, mem, args, c):
    eng = engine(I, mem, args[0])
    r = enc(I, eng, asseq(I, args[1], mem))
    d = asseq(I, args[2], mem)
    ref = innermost(I, args[2], mem)
    if type(d) is Seq and not d.chunked and type(r) is Seq and not r.chunked:
        if len(r.e) > len(d.e):
            return err(S("output slice too small"))
        I.store(ref, Seq(r.e + d.e[len(r.e):]), mem)
        return ok(len(r.e))
    if type(d) is Seq and not d.chunked:
        I.store(ref, Seq((top(I.deep(args[1], mem)),) * len(d.e)), mem)
    else:
        I.store(ref, r, mem)
    return maybe(top(r))


def dec(I, eng, s):
    """-> (Seq|None, ok)"""
    if type(s) is Seq and not s.chunked:
        if eng is None or eng[0] != STD:
            return None, None
        padded = eng[1] is None or eng[1][0] == 1
        e = list(s.e)
        if padded and len(e) % 4:
            return None, False
        strict = eng[1] is None or len(eng[1]) < 2 or eng[1][1] == 0
        out, okk = b64dec(e)
        if okk is False and not strict:
            return None, None
        return (Seq(tuple(out)), okk) if okk is not False else (None, False)
    if type(s) is Seq and len(s.e) == 1 and isinstance(s.e[0].t, tuple) and s.e[0].t[0] == "b64":
        return s.e[0].t[1], True
    return None, None


@model("base64::engine::Engine::decode_vec")
def b64_decode_vec(I, mem, args, c):
    eng = engine(I, mem, args[0])
    s = asseq(I, args[1], mem)
    r = innermost(I, args[2], mem)
    old = I.load(r, mem)
    if type(s) is OneOf:
        s = chunk_of(s)
    out, okk = dec(I, eng, s)
    if okk is False:
        return err(S("base64 decode error"))
    if out is None:
        I.store(r, Seq((old.e if type(old) is Seq else ()) + chunk_of(s if s is not None else "b64").e), mem)
        return maybe(UNIT, S("base64 decode error"))
    I.store(r, seqcat(old if type(old) is Seq else Seq(()), out), mem)
    if okk is None:
        return maybe(UNIT, S("base64 decode error"))
    return ok()


@model("base64::engine::Engine::decode")
def b64_decode(I, mem, args, c):
    eng = engine(I, mem, args[0])
    s = asseq(I, args[1], mem)
    if type(s) is OneOf:
        s = chunk_of(s)
    out, okk = dec(I, eng, s)
    if okk is False:
        return err(S("base64 decode error"))
    if out is None:
        return maybe(chunk_of(s if s is not None else "b64"), S("base64 decode error"))
    return ok(out) if okk else maybe(out, S("base64 decode error"))


# ------------------------------------------------------------------ regex, lazy_static
@model("lazy_static::lazy::Lazy::get")
def lazy_get(I, mem, args, c):
    f = args[1]
    k = ("lazy", f.ty if type(f) is Clo else id(f.c) if type(f) is FnV else 0)
    r = I.constcache.get(k)
    if r is None:
        m = dict(mem)
        v = I.invoke(f, [], m)
        if v is NEVER:
            return NEVER
        r = I.const_ref(I.deep(v, m))
        I.constcache[k] = r
    return r


@model("std::sync::once_lock::OnceLock::get_or_init", "std::sync::lazy_lock::LazyLock::force")
def once_get(I, mem, args, c):
    f = args[-1]
    m = dict(mem)
    v = I.invoke(f, [], m)
    if v is NEVER:
        return NEVER
    return I.const_ref(I.deep(v, m))


@model("regex::regex::string::Regex::new")
def re_new(I, mem, args, c):
    s = sstr_of(I, args[0], mem)
    if s is None:
        return maybe(top("regex"))
    return ok(Obj("regex", S(s)))


def re_of(I, v, mem):
    r = I.full(v, mem)
    if type(r) is Obj and r.k == "regex":
        return sstr(r.f[0])
    return None


def pyre(p):
    return p.replace("(?P<", "(?P<").replace("\\z", "\\Z")


@model("regex::regex::string::Regex::is_match")
def re_match(I, mem, args, c):
    p = re_of(I, args[0], mem)
    s = asseq(I, args[1], mem)
    t = sstr(s) if type(s) is Seq else None
    if p is not None and t is not None:
        try:
            return int(_re.search(fixre(p), t) is not None)
        except _re.error:
            return top(s)
    if p is not None and type(s) is Seq and not s.chunked and all(type(x) is Ch or type(x) is int and x < 128 for x in s.e):
        # every character symbolic over the base64 alphabet: decide patterns that are a class repeated
        m = _re.fullmatch(r"\^(\[[^\]]*\])([*+]|\{\d+(?:,\d*)?\})\$", p)
        if m:
            cls = _re.compile(m.group(1))
            ok_all = True
            for x in s.e:
                if type(x) is Ch:
                    from domain import B64
                    if not all(cls.fullmatch(q) for q in B64):
                        ok_all = None
                elif not cls.fullmatch(chr(x)):
                    return 0
            rep = m.group(2)
            n = len(s.e)
            lo, hi = (0, None) if rep == "*" else (1, None) if rep == "+" else (None, None)
            if lo is None:
                q = _re.fullmatch(r"\{(\d+)(,(\d*))?\}", rep)
                lo = int(q.group(1))
                hi = lo if q.group(2) is None else int(q.group(3)) if q.group(3) else None
            if n < lo or (hi is not None and n > hi):
                return 0
            if ok_all:
                return 1
    if p is not None and type(s) is Seq and not has_top(s):
        return Sym(("match", p, s))
    return top(I.deep(args[1], mem))


def fixre(p):
    # rust `$` is end of text, python `$` also matches before a final newline
    out = []
    i = 0
    incls = False
    while i < len(p):
        ch = p[i]
        if ch == "\\":
            out.append(p[i:i + 2])
            i += 2
            continue
        if ch == "[":
            incls = True
        elif ch == "]":
            incls = False
        if ch == "$" and not incls:
            out.append(r"\Z")
        else:
            out.append(ch)
        i += 1
    return "".join(out)


@model("regex::regex::string::Regex::replace_all")
def re_replace(I, mem, args, c):
    p = re_of(I, args[0], mem)
    t = sstr_of(I, args[1], mem)
    r = sstr_of(I, args[2], mem)
    if p is not None and t is not None and r is not None:
        rr = _re.sub(r"\$\{?(\w+)\}?", lambda m: "\\g<%s>" % m.group(1), r.replace("\\", "\\\\"))
        return Agg(1, (S(_re.sub(fixre(p), rr, t)),))
    d = I.deep(args[1], mem)
    if p is not None and r is not None and not has_top(d):
        return Agg(1, (Seq((Chunk(("resub", p, r, I.tm(d))),)),))
    return Agg(1, (chunk_of(d),))


@model("regex::regex::string::Regex::shortest_match")
def re_shortest(I, mem, args, c):
    p = re_of(I, args[0], mem)
    d = I.deep(args[1], mem)
    if p is not None and not has_top(d):
        return maybe_opt(Sym(("shortest", p, I.tm(d))))
    return maybe_opt(top(d))


@model("regex::regex::string::Regex::captures")
def re_caps(I, mem, args, c):
    return maybe_opt(top(I.deep(args[1], mem)))


# ------------------------------------------------------------------ zeroize
@model("zeroize::Zeroizing::new")
def zeroizing(I, mem, args, c):
    return Agg(0, (args[0],))


@model("zeroize::Zeroize::zeroize")
def zeroize(I, mem, args, c):
    t = garg(I, c)
    if t["k"] == "adt" and t.get("local"):
        return NI
    r = innermost(I, args[0], mem)
    v = I.load(r, mem)
    I.trace.append(("zeroize", (v,)))
    if tystrip(t) in ("alloc::string::String", "alloc::vec::Vec"):
        I.store(r, Seq(()), mem)
    elif t["k"] in ("array", "slice") and type(v) is Seq and not v.chunked:
        I.store(r, Seq((0,) * len(v.e)), mem)
    elif t["k"] in ("uint", "int", "bool"):
        I.store(r, 0, mem)
    return UNIT


MODELS["zeroize::__internal::AssertZeroize::zeroize_or_on_drop"] = zeroize


# ------------------------------------------------------------------ crypto (uninterpreted)
INTERP = None       # optional (tag, n, ins) -> Seq: stand-in values chosen by a check


def uninterp(tag, n, *ins):
    """n bytes that are a function of the inputs only"""
    if INTERP is not None:
        v = INTERP(tag, n, ins)
        if v is not None:
            return v
    return symbytes((tag,) + tuple(ins), n)


def S_(I, v, mem):
    s = asseq(I, v, mem)
    return s if s is not None else chunk_of(I.deep(v, mem))


@model("blake3::hash")
def b3_hash(I, mem, args, c):
    return Obj("digest", uninterp("blake3", 32, S_(I, args[0], mem)))


@model("blake3::Hash::as_bytes", "blake3::Hash::as_slice")
def b3_as(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "digest":
        return I.const_ref(v.f[0])
    return NI


@model("blake3::Hasher::new")
def b3_new(I, mem, args, c):
    return Obj("hasher", S("blake3"), Seq(()))


@model("blake3::Hasher::update")
def b3_update(I, mem, args, c):
    r = innermost(I, args[0], mem)
    h = I.load(r, mem)
    if type(h) is Obj and h.k == "hasher":
        s = S_(I, args[1], mem)
        I.store(r, Obj("hasher", h.f[0], seqcat(h.f[1], s if type(s) is Seq else chunk_of(s))), mem)
    return args[0]


@model("blake3::Hasher::finalize")
def b3_fin(I, mem, args, c):
    h = I.full(args[0], mem)
    if type(h) is Obj and h.k == "hasher":
        return Obj("digest", uninterp("blake3", 32, h.f[1]))
    return NI


@model("blake3::Hasher::finalize_xof")
def b3_xof(I, mem, args, c):
    h = I.full(args[0], mem)
    if type(h) is Obj and h.k == "hasher":
        return Obj("xof", h.f[1], 0)
    return NI


@model("blake3::OutputReader::set_position")
def b3_pos(I, mem, args, c):
    r = innermost(I, args[0], mem)
    x = I.load(r, mem)
    if type(x) is Obj and x.k == "xof":
        I.store(r, Obj("xof", x.f[0], I.deep(args[1], mem)), mem)
        return UNIT
    return NI


@model("blake3::OutputReader::fill")
def b3_fill(I, mem, args, c):
    x = I.full(args[0], mem)
    r = innermost(I, args[1], mem)
    d = I.load(r, mem)
    if type(x) is Obj and x.k == "xof" and type(d) is Seq and not d.chunked and type(x.f[1]) is int:
        n = x.f[1]
        I.store(r, uninterp("blake3" if n == 0 else "blake3@%d" % n, len(d.e), x.f[0]), mem)
        I.store(innermost(I, args[0], mem), Obj("xof", x.f[0], n + len(d.e)), mem)
        return UNIT
    I.store(r, top(I.deep(d, mem)), mem)
    return UNIT


def hasher_kind(s):
    """name and output length of a RustCrypto digest type"""
    t = s.replace(" ", "")
    if "sha3::Sha3_256" in t or "Sha3_256Core" in t:
        return "sha3_256", 32
    if "Sha3_512" in t:
        return "sha3_512", 64
    if "Keccak256" in t:
        return "keccak256", 32
    if "Blake2b" in t:
        m = _re.search(r"typenum::(?:consts::)?U(\d+)", t)
        if m:
            return "blake2b%d" % int(m.group(1)), int(m.group(1))
        bits = _re.findall(r"bit::B([01])", t)
        if bits:
            n = int("".join(bits[:8]), 2) if len(bits) < 8 else None
            if n:
                return "blake2b%d" % n, n
        return "blake2b64", 64
    if "Blake2s" in t:
        bits = _re.findall(r"bit::B([01])", t)
        return "blake2s32", 32
    if "Sha512" in t or "OidSha512" in t:
        return "sha2_512", 64
    if "Sha384" in t:
        return "sha2_384", 48
    if "Sha256" in t or "OidSha256" in t:
        return "sha2_256", 32
    if "Sha224" in t:
        return "sha2_224", 28
    return None


@model("digest::digest::Digest::new")
def dg_new(I, mem, args, c):
    return Obj("hasher", S(garg(I, c)["s"]), Seq(()))


@model("digest::digest::Digest::new_with_prefix")
def dg_newp(I, mem, args, c):
    return Obj("hasher", S(garg(I, c)["s"]), S_(I, args[0], mem))


MODELS["digest::digest::Digest::update"] = b3_update
MODELS["digest::Update::update"] = b3_update


@model("digest::digest::Digest::chain_update")
def dg_chain(I, mem, args, c):
    h = args[0]
    if type(h) is Obj and h.k == "hasher":
        s = S_(I, args[1], mem)
        return Obj("hasher", h.f[0], seqcat(h.f[1], s if type(s) is Seq else chunk_of(s)))
    return NI


@model("digest::digest::Digest::reset")
def dg_reset(I, mem, args, c):
    r = innermost(I, args[0], mem)
    h = I.load(r, mem)
    if type(h) is Obj and h.k == "hasher":
        I.store(r, Obj("hasher", h.f[0], Seq(())), mem)
        return UNIT
    return NI


@model("digest::digest::Digest::finalize_into", "digest::FixedOutput::finalize_into")
def dg_into(I, mem, args, c):
    v = dg_fin(I, mem, args[:1], c)
    I.store(innermost(I, args[1], mem), v, mem)
    return UNIT


@model("digest::digest::Digest::output_size")
def dg_size(I, mem, args, c):
    k = hasher_kind(garg(I, c)["s"])
    return k[1] if k else NI


@model("digest::digest::Digest::finalize", "digest::digest::Digest::finalize_reset", "digest::FixedOutput::finalize_fixed")
def dg_fin(I, mem, args, c):
    h = I.full(args[0], mem)
    if type(h) is Obj and h.k == "hasher":
        k = hasher_kind(sstr(h.f[0]))
        if k:
            if c["p"].endswith("_reset"):
                I.store(innermost(I, args[0], mem), Obj("hasher", h.f[0], Seq(())), mem)
            return uninterp(k[0], k[1], h.f[1])
    return top(I.deep(args[0], mem))


@model("digest::digest::Digest::digest")
def dg_dig(I, mem, args, c):
    k = hasher_kind(garg(I, c)["s"])
    if k:
        return uninterp(k[0], k[1], S_(I, args[0], mem))
    return NI


def curve(I, c):
    s = " ".join(garg(I, c, i)["s"] for i in range(3))
    if "k256" in s or "Secp256k1" in s:
        return "secp256k1"
    if "p256" in s or "NistP256" in s:
        return "p256"
    return "ed25519"


# ed25519
@model("ed25519_dalek::signing::SigningKey::from_bytes")
def ed_sk(I, mem, args, c):
    return Obj("sk", S("ed25519"), S_(I, args[0], mem))


@model("ed25519_dalek::signing::SigningKey::generate", "ecdsa::signing::SigningKey::random")
def sk_gen(I, mem, args, c):
    cv = "ed25519" if "ed25519" in c["p"] else curve(I, c)
    I.fresh += 1
    I.ext("rng", cv, rngty(I, args[0], mem, c), 32)
    return Obj("sk", S(cv), symbytes(("random", cv, I.fresh), 32))


@model("ed25519_dalek::signing::SigningKey::to_bytes", "ed25519_dalek::signing::SigningKey::as_bytes", "ecdsa::signing::SigningKey::to_bytes")
def sk_bytes(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "sk":
        return v.f[1] if not c["p"].endswith("as_bytes") else I.const_ref(v.f[1])
    return top(I.deep(args[0], mem))


@model("ed25519_dalek::signing::SigningKey::verifying_key", "ecdsa::signing::SigningKey::verifying_key")
def sk_vk(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "sk":
        r = vk_of(v)
        return r if "ed25519" in c["p"] else I.const_ref(r)
    return top(I.deep(args[0], mem))


@model("ed25519_dalek::verifying::VerifyingKey::as_bytes", "ed25519_dalek::verifying::VerifyingKey::to_bytes")
def vk_bytes(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "vk":
        return v.f[1] if c["p"].endswith("to_bytes") else I.const_ref(v.f[1])
    return I.alloc(mem, top(I.deep(args[0], mem)))


@model("ecdsa::verifying::VerifyingKey::to_encoded_point")
def vk_point(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "vk":
        if args[1] == 1:
            return Obj("point", v.f[1])
        return Obj("point", uninterp("uncompressed", 65, v.f[1]))
    return top(I.deep(args[0], mem))


@model("sec1::point::EncodedPoint::as_bytes", "sec1::point::EncodedPoint::to_bytes")
def point_bytes(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "point":
        return I.const_ref(v.f[0])
    return I.alloc(mem, top(I.deep(args[0], mem)))


@model("ed25519_dalek::verifying::VerifyingKey::from_bytes", "ecdsa::verifying::VerifyingKey::from_sec1_bytes")
def vk_from(I, mem, args, c):
    cv = "ed25519" if "ed25519" in c["p"] else curve(I, c)
    s = S_(I, args[0], mem)
    return fallible(I, mem, "vk", (cv, s), Obj("vk", S(cv), s), S("invalid key"))


@model("ed25519_dalek::verifying::VerifyingKey::is_weak")
def vk_weak(I, mem, args, c):
    v = I.deep(args[0], mem)
    d = I.ext("weak", v)
    if d is not None:
        return int(d)
    return Sym(("is_weak", v)) if not has_top(v) else top(v)


@model("ecdsa::signing::SigningKey::from_slice", "ecdsa::signing::SigningKey::from_bytes")
def sk_from(I, mem, args, c):
    s = S_(I, args[0], mem)
    return fallible(I, mem, "sk", (curve(I, c), s), Obj("sk", S(curve(I, c)), s), S("invalid key"))


def rngty(I, v, mem, c):
    """type name of the generator behind a &mut R argument"""
    a = [I.T[x] for x in (c.get("a") or []) if isinstance(x, int)]
    for t in reversed(a):
        while t["k"] == "ref":
            t = I.T[t["t"]]
        if "rng" in t["s"].lower() or "Rng" in t["s"]:
            return t["s"]
    return a[-1]["s"] if a else "?"


@model("signature::signer::Signer::sign")
def sign(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "sk":
        I.ext("sign", v.f[0], v.f[1], S_(I, args[1], mem))
        cv = sstr(v.f[0])
        return Obj("sig", v.f[0], uninterp("sig_" + cv, 64, v.f[1], S_(I, args[1], mem)))
    return top(I.deep(args[0], mem), I.deep(args[1], mem))


@model("signature::signer::RandomizedSigner::sign_with_rng")
def sign_rng(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "sk":
        I.ext("sign", v.f[0], v.f[1], S_(I, args[2], mem))
        I.ext("nonce", v.f[0], rngty(I, args[1], mem, c))
        cv = sstr(v.f[0])
        return Obj("sig", v.f[0], uninterp("sig_" + cv, 64, v.f[1], S_(I, args[2], mem)))
    return top(I.deep(args[0], mem), I.deep(args[2], mem))


@model("signature::signer::Signer::try_sign")
def try_sign(I, mem, args, c):
    return ok(sign(I, mem, args, c))


@model("signature::signer::RandomizedSigner::try_sign_with_rng")
def try_sign_rng(I, mem, args, c):
    return ok(sign_rng(I, mem, args, c))


@model("ed25519::Signature::to_bytes", "ecdsa::Signature::to_vec", "ecdsa::Signature::to_bytes", "ed25519::Signature::to_vec")
def sig_bytes(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "sig":
        return v.f[1]
    return top(I.deep(args[0], mem))


@model("ed25519::Signature::r_bytes", "ed25519::Signature::s_bytes")
def sig_half(I, mem, args, c):
    v = I.full(args[0], mem)
    b = v.f[1] if type(v) is Obj and v.k == "sig" else None
    if type(b) is Seq and not b.chunked and len(b.e) == 64:
        return I.alloc(mem, Seq(b.e[:32] if c["p"].endswith("r_bytes") else b.e[32:]))
    return I.alloc(mem, top(I.deep(args[0], mem)))


@model("ed25519::Signature::from_components")
def sig_join(I, mem, args, c):
    a, b = S_(I, args[0], mem), S_(I, args[1], mem)
    if type(a) is Seq and type(b) is Seq:
        return Obj("sig", S("ed25519"), Seq(a.e + b.e))
    return top(I.deep(args[0], mem), I.deep(args[1], mem))


@model("ed25519::Signature::from_bytes")
def sig_from(I, mem, args, c):
    return Obj("sig", S("ed25519"), S_(I, args[0], mem))


@model("ed25519::Signature::from_slice", "ecdsa::Signature::from_slice", "ecdsa::Signature::from_bytes")
def sig_slice(I, mem, args, c):
    cv = "ed25519" if "ed25519" in c["p"] else curve(I, c)
    s = S_(I, args[0], mem)
    if cv == "ed25519" and type(s) is Seq and not s.chunked:      # only the length is checked
        return ok(Obj("sig", S(cv), s)) if len(s.e) == 64 else err(S("bytes length"))
    return fallible(I, mem, "sig", (cv, s), Obj("sig", S(cv), s), S("invalid signature"))


@model("ecdsa::Signature::normalize_s")
def sig_norm(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is Obj and v.k == "sig":
        d = I.ext("high_s", v.f[0], v.f[1])
        n = some(Obj("sig", v.f[0], uninterp("normal_s", 64, v.f[1])))
        return NONE if d is False else n if d else Alt({0: (), 1: n.f})
    return top(I.deep(args[0], mem))


@model("signature::verifier::Verifier::verify", "ed25519_dalek::verifying::VerifyingKey::verify_strict")
def verify(I, mem, args, c):
    k, m, s = I.full(args[0], mem), S_(I, args[1], mem), I.full(args[2], mem)
    if type(k) is Obj and k.k == "vk" and type(s) is Obj and s.k == "sig":
        kind = "verify" if "Verifier" in c["p"] else "verify_strict"
        return fallible(I, mem, kind, (k.f[0], k.f[1], m, s.f[0], s.f[1]), UNIT, S("signature error"))
    I.ext("verify", None)
    return maybe(UNIT, S("signature error"))


def someint(v):
    """Some(concrete) -> int, None -> None, else False"""
    if type(v) is Agg and v.v == 0:
        return None
    if type(v) is Agg and v.v == 1 and type(v.f[0]) is int:
        return v.f[0]
    return False


@model("argon2::params::Params::new")
def argon_params(I, mem, args, c):
    a = [I.deep(x, mem) for x in args]
    I.ext("argon_params", *a)
    v = Obj("argon_params", *a)
    m, t, p = a[:3]
    n = someint(a[3])
    if all(type(x) is int for x in (m, t, p)) and n is not False:
        good = m >= max(8, p * 8) and t >= 1 and 1 <= p <= 0xFFFFFF and (n is None or 4 <= n <= 0xFFFFFFFF)
        return ok(v) if good else err(S("params error"))
    return maybe(v, S("params error"), ("argon_params",) + tuple(a), mem)


@model("argon2::Argon2::new")
def argon_new(I, mem, args, c):
    return Obj("argon", *[I.deep(a, mem) for a in args])


@model("argon2::Argon2::hash_password_into")
def argon_hash(I, mem, args, c):
    a = I.deep(args[0], mem)
    p, s = S_(I, args[1], mem), S_(I, args[2], mem)
    r = innermost(I, args[3], mem)
    d = I.load(r, mem)
    sure = type(d) is Seq and not d.chunked
    if sure and type(a) is Obj and a.k == "argon" and len(a.f) == 3 and type(a.f[2]) is Obj and a.f[2].k == "argon_params":
        n = someint(a.f[2].f[3])
        if n is None and not 4 <= len(d.e) <= 0xFFFFFFFF or type(n) is int and n != len(d.e):
            return err(S("argon error"))
        if n is not False:      # the stated output length is the buffer's: it has no other effect
            a = Obj("argon", a.f[0], a.f[1], Obj("argon_params", *a.f[2].f[:3]))
    if type(s) is Seq and not s.chunked and len(s.e) < 8:
        return err(S("argon error"))
    if sure:
        I.store(r, symbytes(("argon", a, p, s, len(d.e)), len(d.e)), mem)
    else:
        I.store(r, Seq((Chunk(("argon", a, p, s, I.tm(I.seqlen(d)) if type(d) in (Seq, Sym) else None)),)), mem)
    return fallible(I, mem, "argon", (a, p, s), UNIT, S("argon error"))


@model("rand_core::RngCore::fill_bytes", "rand_core::RngCore::try_fill_bytes")
def fill_bytes(I, mem, args, c):
    r = innermost(I, args[1], mem)
    d = I.load(r, mem)
    I.fresh += 1
    I.ext("rng", "os", rngty(I, args[0], mem, c), len(d.e) if type(d) is Seq and not d.chunked else None)
    if type(d) is Seq and not d.chunked:
        I.store(r, symbytes(("random", "os", I.fresh), len(d.e)), mem)
    else:
        I.store(r, Seq((Chunk(("random", "os", I.fresh)),)), mem)
    return UNIT if not c["p"].endswith("try_fill_bytes") else maybe(UNIT)


# ------------------------------------------------------------------ chrono
@model("chrono::offset::utc::Utc::now", "chrono::offset::local::Local::now")
def utc_now(I, mem, args, c):
    """a moment, when the check fixed what the clock shows: (year, month, day, hour, minute, second, nanosecond) in universal time"""
    if "Local" in c["p"]:
        return NI
    return Obj("utcnow", *((I.clock,) if I.clock else ()))


@model("chrono::datetime::DateTime::to_rfc3339_opts", "chrono::datetime::DateTime::to_rfc3339")
def rfc3339(I, mem, args, c):
    v = I.deep(args[0], mem)
    opts = c["p"].endswith("_opts")
    f = I.deep(args[1], mem) if opts else Agg(4, ())
    z = args[2] if opts else 0
    if type(v) is Obj and v.k == "utcnow" and len(v.f) == 1 and type(f) is Agg and type(f.v) is int and type(z) is int:
        y, mo, d, h, m, s, n = v.f[0]
        k = f.v if f.v < 4 else 0 if n == 0 else 1 if n % 1000000 == 0 else 2 if n % 1000 == 0 else 3
        return S("%04d-%02d-%02dT%02d:%02d:%02d%s%s" % (y, mo, d, h, m, s, "." + ("%09d" % n)[:3 * k] if k else "", "Z" if z else "+00:00"))
    return Seq((Chunk(("rfc3339", I.deep(args[0], mem), f, z)),))


CLOCK = {"Y": "%(y)04d", "m": "%(mo)02d", "d": "%(d)02d", "H": "%(h)02d", "M": "%(m)02d", "S": "%(s)02d", "3f": "%(n3)s", "6f": "%(n6)s", "9f": "%(n9)s", "f": "%(n9)s",
         ".3f": ".%(n3)s", ".6f": ".%(n6)s", ".9f": ".%(n9)s", "F": "%(y)04d-%(mo)02d-%(d)02d", "T": "%(h)02d:%(m)02d:%(s)02d", "z": "+0000", ":z": "+00:00", "%": "%%",
         "I": "%(h12)02d", "y": "%(y2)02d", "e": "%(d)2d", "R": "%(h)02d:%(m)02d", "D": "%(mo)02d/%(d)02d/%(y2)02d"}


@model("chrono::datetime::DateTime::format")
def clock_format(I, mem, args, c):
    v, f = I.deep(args[0], mem), asseq(I, args[1], mem)
    if type(v) is not Obj or v.k != "utcnow" or len(v.f) != 1 or type(f) is not Seq or not all(type(x) is int for x in f.e):
        return NI
    y, mo, d, h, m, s, n = v.f[0]
    g = dict(y=y, mo=mo, d=d, h=h, m=m, s=s, n3="%03d" % (n // 10**6), n6="%06d" % (n // 1000), n9="%09d" % n, h12=h % 12 or 12, y2=y % 100)
    parts = _re.split(r"%([.:]?[369]?[A-Za-z%])", bytes(f.e).decode())
    if any(p not in CLOCK for p in parts[1::2]):
        return NI
    return Obj("clocktext", S("".join(CLOCK[p] % g if i % 2 else p for i, p in enumerate(parts))))


@model("chrono::datetime::DateTime::timestamp_subsec_micros", "chrono::datetime::DateTime::timestamp_subsec_nanos", "chrono::datetime::DateTime::timestamp_subsec_millis")
def clock_subsec(I, mem, args, c):
    v = I.deep(args[0], mem)
    if type(v) is not Obj or v.k != "utcnow" or len(v.f) != 1:
        return NI
    return v.f[0][6] // {"nanos": 1, "micros": 1000, "millis": 10**6}[c["p"].rsplit("_", 1)[1]]


@model("core::panicking::unreachable_default_msg")
def unreach(I, mem, args, c):
    return I.panic("unreachable code", mem)


@model("core::panicking::panic_fmt", "core::panicking::panic", "core::panicking::panic_display", "std::rt::begin_panic",
       "core::panicking::panic_explicit", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
       "core::panicking::panic_bounds_check", "core::slice::copy_from_slice_impl::len_mismatch_fail")
def panicm(I, mem, args, c):
    m = ""
    if args and type(args[0]) is Agg and args[0].v == 78:
        m = ": " + show(args[0].f[0])
    return I.panic("explicit panic" + m, mem)



# ---------------------------------------------------------------- javascript values
@model("js_sys::Error::new")
def js_error(I, mem, args, c):
    return Obj("jserror", I.deep(args[0], mem))


@model("js_sys::Array::new_with_length")
def js_array(I, mem, args, c):
    if type(args[0]) is not int:
        return NI
    return Obj("jsarray", I.alloc(mem, Seq((Obj("undefined"),) * args[0])))


@model("js_sys::Array::new")
def js_array0(I, mem, args, c):
    return Obj("jsarray", I.alloc(mem, Seq(())))


def jsarr(I, mem, v):
    a = I.full(v, mem)
    return a.f[0] if type(a) is Obj and a.k == "jsarray" else None


@model("js_sys::Array::set")
def js_set(I, mem, args, c):
    a = jsarr(I, mem, args[0])
    if a is None or type(args[1]) is not int:
        return NI
    s = I.load(a, mem)
    e = list(s.e)
    while len(e) <= args[1]:
        e.append(Obj("undefined"))
    e[args[1]] = args[2]
    I.store(a, Seq(tuple(e)), mem)
    return UNIT


@model("js_sys::Array::push")
def js_push(I, mem, args, c):
    a = jsarr(I, mem, args[0])
    if a is None:
        return NI
    s = I.load(a, mem)
    I.store(a, Seq(s.e + (I.load(args[1], mem) if type(args[1]) is Ref else args[1],)), mem)
    return len(s.e) + 1


@model("js_sys::Array::length")
def js_length(I, mem, args, c):
    a = jsarr(I, mem, args[0])
    return NI if a is None else len(I.load(a, mem).e)


@model("js_sys::Array::get")
def js_get(I, mem, args, c):
    a = jsarr(I, mem, args[0])
    if a is None or type(args[1]) is not int:
        return NI
    e = I.load(a, mem).e
    return e[args[1]] if args[1] < len(e) else Obj("undefined")


@model("wasm_bindgen::JsValue::as_string")
def js_string(I, mem, args, c):
    v = I.full(args[0], mem)
    if type(v) is not Obj:
        return NI
    return some(v.f[0]) if v.k == "js" and type(v.f[0]) is Seq else Agg(0, ())


@model("js_sys::Array::iter")
def js_iter(I, mem, args, c):
    a = jsarr(I, mem, args[0])
    return NI if a is None else It(tuple(I.load(a, mem).e))
