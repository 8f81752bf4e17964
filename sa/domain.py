"""Abstract values.

  int / bool / char           Python int                      (a known scalar)
  Bits(b)                     scalar whose bits are 0, 1, a named symbolic bit (>=2) or unknown (-1)
  Ch(b)                       the base64url character of the sextet with bits b
  float / FI(lo, hi)          known float / interval
  Sym(term)                   unknown value; term identity means value identity, except for ('top', leaves)
  OneOf(vals)                 one of a small set of values
  Seq(elems)                  str, String, [T], Vec<T>, [T; N]: element values; strings are UTF-8 bytes
  Chunk(term, elem)           inside a Seq: a run of unknown length
  Agg(variant, fields)        struct, tuple, enum value
  Alt({variant: fields})      enum value, one of several variants
  Ref(base, path)             reference / pointer / Box to a memory place
  Clo(ty, fields), FnV(ty)    closure, function item
  It(kind, ...)               iterator state
  MapV(items, open)           IndexMap / HashMap / serde_json::Map with constant keys
"""
from fractions import Fraction

_bit_ids = {}
_bit_names = [None, None]


def symbit(name, i):
    k = (name, i)
    r = _bit_ids.get(k)
    if r is None:
        r = len(_bit_names)
        _bit_ids[k] = r
        _bit_names.append(k)
    return r


def bitname(i):
    return _bit_names[i]


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
B64I = {ord(c): i for i, c in enumerate(B64)}


class V:
    __slots__ = ()


class Bits(V):
    __slots__ = ("b", "h")

    def __init__(self, b):
        self.b = b
        self.h = hash(b)

    def __eq__(self, o):
        return type(o) is Bits and self.b == o.b and -1 not in self.b

    def __hash__(self):
        return self.h

    def __repr__(self):
        def f(x):
            if x in (0, 1):
                return str(x)
            if x == -1:
                return "?"
            n = _bit_names[x]
            return "%s.%s" % n
        # compress
        return "Bits[" + " ".join(f(x) for x in reversed(self.b)) + "]"


class Ch(V):
    """base64url character of a sextet (LSB-first bits)"""
    __slots__ = ("b", "h")

    def __init__(self, b):
        self.b = b
        self.h = hash((b, 64))

    def __eq__(self, o):
        return type(o) is Ch and self.b == o.b and -1 not in self.b

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "Ch" + repr(Bits(self.b))[4:]


class FI(V):
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def __eq__(self, o):
        return False

    def __hash__(self):
        return 7

    def __repr__(self):
        return "FI[%r,%r]" % (self.lo, self.hi)


class Sym(V):
    __slots__ = ("t", "h")

    def __init__(self, t):
        self.t = t
        self.h = hash(t)

    def __eq__(self, o):
        return type(o) is Sym and (self is o or self.t == o.t)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "Sym(%s)" % (fmt_term(self.t),)


class OneOf(V):
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = frozenset(vs)

    def __eq__(self, o):
        return type(o) is OneOf and self.vs == o.vs

    def __hash__(self):
        return hash(self.vs)

    def __repr__(self):
        return "OneOf{%s}" % ", ".join(sorted(map(show, self.vs)))


class Chunk(V):
    __slots__ = ("t", "e")

    def __init__(self, t, e=None):
        self.t = t
        self.e = e

    def __eq__(self, o):
        return type(o) is Chunk and self.t == o.t and self.e == o.e

    def __hash__(self):
        return hash(("chunk", self.t))

    def __repr__(self):
        return "<%s>" % fmt_term(self.t)


class Seq(V):
    __slots__ = ("e", "h", "ch")

    def __init__(self, e):
        self.e = e if type(e) is tuple else tuple(e)
        self.h = None
        self.ch = None

    @property
    def chunked(self):
        if self.ch is None:
            self.ch = any(type(x) is Chunk for x in self.e)
        return self.ch

    def __eq__(self, o):
        return type(o) is Seq and (self is o or self.e == o.e)

    def __hash__(self):
        if self.h is None:
            self.h = hash(self.e)
        return self.h

    def __repr__(self):
        return show(self)


class Agg(V):
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __eq__(self, o):
        return type(o) is Agg and self.v == o.v and (self.f is o.f or self.f == o.f)

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return "Agg%d(%s)" % (self.v, ", ".join(map(show, self.f)))


class Alt(V):
    __slots__ = ("a", "c")

    def __init__(self, a, c=None):
        self.a = a  # dict variant -> fields
        self.c = c  # dict variant -> (condition, value) under which this variant arises (witness)

    def __eq__(self, o):
        return type(o) is Alt and self.a == o.a

    def __hash__(self):
        return hash(tuple(sorted(self.a)))

    def __repr__(self):
        return "Alt{%s}" % "; ".join("%d(%s)" % (k, ", ".join(map(show, v))) for k, v in sorted(self.a.items()))


class Ref(V):
    __slots__ = ("b", "p")

    def __init__(self, b, p=()):
        self.b = b
        self.p = p

    def __eq__(self, o):
        return type(o) is Ref and self.b == o.b and self.p == o.p

    def __hash__(self):
        return hash((self.b, self.p))

    def __repr__(self):
        return "&%r%s" % (self.b, "".join(".%s" % (x,) for x in self.p))


class Clo(V):
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f

    def __eq__(self, o):
        return type(o) is Clo and self.ty == o.ty and self.f == o.f

    def __hash__(self):
        return hash((self.ty, self.f))


class FnV(V):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c  # callee dict

    def __eq__(self, o):
        return type(o) is FnV and self.c == o.c

    def __hash__(self):
        return 11


class It(V):
    """iterator over a tuple of items; rest: element value of an unknown-length tail (or None)"""
    __slots__ = ("items", "rest")

    def __init__(self, items, rest=None):
        self.items = tuple(items)
        self.rest = rest

    def __eq__(self, o):
        return type(o) is It and self.items == o.items and self.rest == o.rest

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "It(%s%s)" % (", ".join(map(show, self.items[:6])), "..." if self.rest is not None else "")


class MapV(V):
    """ordered map; keys are Seq; open: may hold further unknown entries (value `rest`)"""
    __slots__ = ("items", "open", "rest")

    def __init__(self, items, open=False, rest=None):
        self.items = tuple(items)
        self.open = open
        self.rest = rest

    def __eq__(self, o):
        return type(o) is MapV and self.items == o.items and self.open == o.open and self.rest == o.rest

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "Map{%s%s}" % (", ".join("%s: %s" % (show(k), show(v)) for k, v in self.items), ", .." if self.open else "")


class Discr(V):
    """discriminant of the value at place"""
    __slots__ = ("place", "ti", "val")

    def __init__(self, place, ti, val):
        self.place = place
        self.ti = ti
        self.val = val

    def __eq__(self, o):
        return False

    def __hash__(self):
        return 13


class Rat(V):
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return type(o) is Rat and self.q == o.q

    def __hash__(self):
        return hash(self.q)

    def __repr__(self):
        return "Rat(%s)" % self.q


class Obj(V):
    """opaque external object with a kind and component values (keys, hashers, regexes, ...)"""
    __slots__ = ("k", "f")

    def __init__(self, k, *f):
        self.k = k
        self.f = tuple(f)

    def __eq__(self, o):
        return type(o) is Obj and self.k == o.k and self.f == o.f

    def __hash__(self):
        return hash((self.k, self.f))

    def __repr__(self):
        return "%s(%s)" % (self.k, ", ".join(map(show, self.f)))


UNIT = Agg(0, ())


def fmt_term(t, d=0):
    if isinstance(t, tuple):
        if d > 6:
            return "…"
        if t and isinstance(t[0], str):
            return "%s(%s)" % (t[0], ", ".join(fmt_term(x, d + 1) for x in t[1:]))
        return "(%s)" % ", ".join(fmt_term(x, d + 1) for x in t)
    if isinstance(t, frozenset):
        return "{%s}" % ", ".join(sorted(fmt_term(x, d + 1) for x in t))
    if isinstance(t, V):
        return show(t)
    return str(t)


def show(v):
    if type(v) is Seq:
        out = []
        run = []

        def flush():
            if run:
                bs = bytes(run)
                try:
                    s = bs.decode()
                    if s.isprintable():
                        out.append('"%s"' % s)
                    else:
                        out.append("0x" + bs.hex())
                except UnicodeDecodeError:
                    out.append("0x" + bs.hex())
                run.clear()
        for x in v.e:
            if type(x) is int and 0 <= x < 256:
                run.append(x)
            else:
                flush()
                out.append(show(x))
        flush()
        if len(out) > 12:
            out = out[:12] + ["…(%d)" % len(v.e)]
        return "[" + " ".join(out) + "]"
    return repr(v)


def S(s):
    """Seq of a Python str / bytes"""
    if isinstance(s, str):
        s = s.encode()
    return Seq(tuple(s))


def sstr(v):
    """Python str of a fully concrete string Seq, else None"""
    if type(v) is not Seq:
        return None
    for x in v.e:
        if type(x) is not int or not 0 <= x < 256:
            return None
    try:
        return bytes(v.e).decode()
    except UnicodeDecodeError:
        return None


def sbytes(v):
    if type(v) is not Seq:
        return None
    for x in v.e:
        if type(x) is not int or not 0 <= x < 256:
            return None
    return bytes(v.e)


def leaves(v, out=None, depth=0):
    """provenance leaves of a value"""
    if out is None:
        out = set()
    if depth > 40 or len(out) > 60:
        return out
    if type(v) is Sym:
        _tl(v.t, out, depth + 1)
    elif type(v) in (Bits, Ch):
        for b in v.b:
            if b >= 2:
                out.add(_bit_names[b][0])
            elif b == -1:
                out.add("?")
    elif type(v) is Seq:
        for x in v.e:
            if type(x) is not int:
                leaves(x, out, depth + 1)
    elif type(v) is Chunk:
        _tl(v.t, out, depth + 1)
    elif type(v) in (Agg, Clo, Obj):
        for x in v.f:
            leaves(x, out, depth + 1)
    elif type(v) is Alt:
        for f in v.a.values():
            for x in f:
                leaves(x, out, depth + 1)
    elif type(v) is OneOf:
        for x in v.vs:
            leaves(x, out, depth + 1)
    elif type(v) is It:
        for x in v.items:
            leaves(x, out, depth + 1)
        if v.rest is not None:
            leaves(v.rest, out, depth + 1)
    elif type(v) is MapV:
        for k, x in v.items:
            leaves(x, out, depth + 1)
        if v.rest is not None:
            leaves(v.rest, out, depth + 1)
    elif type(v) is FI:
        out.add("float")
    return out


def _tl(t, out, depth):
    if depth > 40:
        return
    if isinstance(t, V):
        leaves(t, out, depth + 1)
    elif isinstance(t, tuple):
        for x in t[1:] if t and isinstance(t[0], str) else t:
            _tl(x, out, depth + 1)
        if len(t) == 1 and isinstance(t[0], str):
            out.add(t[0])
        if len(t) == 2 and t[0] == "in":
            out.add(t[1])
    elif isinstance(t, frozenset):
        for x in t:
            _tl(x, out, depth + 1)
    elif isinstance(t, str):
        out.add(t)


def top(*vs):
    """unknown value without identity, remembering where it came from"""
    o = set()
    for v in vs:
        if isinstance(v, str):
            o.add(v)
        else:
            leaves(v, o)
    if len(o) > 60:
        o = set(sorted(map(str, o))[:60])
    return Sym(("top", frozenset(o)))


def is_top(v):
    return type(v) is Sym and type(v.t) is tuple and len(v.t) == 2 and v.t[0] == "top"


def inp(name):
    return Sym(("in", name))


def mkbits(b):
    """normalise a tuple of bits (LSB first)"""
    n = 0
    for i, x in enumerate(b):
        if x == 1:
            n |= 1 << i
        elif x != 0:
            return Bits(tuple(b))
    return n


def tobits(v, w):
    """bits of a scalar as a w-tuple, or None"""
    if type(v) is int:
        return tuple((v >> i) & 1 for i in range(w))
    if type(v) is Bits:
        b = v.b
        if len(b) >= w:
            return b[:w]
        return b + (0,) * (w - len(b))
    if type(v) is Ch:
        return None
    return None


def mkch(b):
    """character of a sextet"""
    n = mkbits(tuple(b))
    if type(n) is int:
        return ord(B64[n])
    return Ch(tuple(b))


HEXD = "0123456789abcdef"


def mkhex(b):
    """lower-case hexadecimal digit character of a nibble (LSB-first bits)"""
    n = mkbits(tuple(b))
    if type(n) is int:
        return ord(HEXD[n])
    return Sym(("hexch", n))


def ishex(x):
    return type(x) is Sym and isinstance(x.t, tuple) and x.t and x.t[0] == "hexch"


def hexbits(x):
    """nibble bits of a digit character, or None"""
    if ishex(x):
        return tobits(x.t[1], 4)
    if type(x) is int and chr(x) in HEXD:
        n = HEXD.index(chr(x))
        return tuple((n >> k) & 1 for k in range(4))
    return None


def is7(x):
    """an element that is one ASCII character whatever its value"""
    t = type(x)
    return t is Ch or (t is int and x < 128) or (t is Bits and (len(x.b) < 8 or x.b[7] == 0)) or ishex(x)


def chbits(c):
    """sextet bits of a character value, or None"""
    if type(c) is Ch:
        return c.b
    if type(c) is int and c in B64I:
        i = B64I[c]
        return tuple((i >> k) & 1 for k in range(6))
    return None


def symbyte(name, i):
    return Bits(tuple(symbit(name, 8 * i + k) for k in range(8)))


def symbytes(name, n):
    return Seq(tuple(symbyte(name, i) for i in range(n)))


def b64enc(elems, pad=True):
    """base64url encode a tuple of byte values"""
    out = []
    n = len(elems)
    bits = []  # MSB first
    for e in elems:
        b = tobits(e, 8)
        if b is None:
            b = (-1,) * 8
        bits.extend(reversed(b))
    while len(bits) % 6:
        bits.append(0)
    for i in range(0, len(bits), 6):
        out.append(mkch(tuple(reversed(bits[i:i + 6]))))
    if pad:
        while len(out) % 4:
            out.append(ord("="))
    return out


def b64dec(elems):
    """decode base64url characters: (bytes, ok) with ok in True/False/None"""
    ok = True
    e = list(elems)
    npad = 0
    if len(e) % 4 != 0:
        return [], False
    while e and type(e[-1]) is int and e[-1] == 61 and npad < 2:
        e.pop()
        npad += 1
    bits = []
    for c in e:
        s = chbits(c)
        if s is None:
            if type(c) is int:
                return [], False
            ok = None
            s = (-1,) * 6
        bits.extend(reversed(s))
    nb = len(bits) // 8
    tail = bits[nb * 8:]
    if any(t == 1 for t in tail):
        return [], False
    if any(t != 0 for t in tail):
        ok = None
    out = []
    for i in range(nb):
        out.append(mkbits(tuple(reversed(bits[8 * i:8 * i + 8]))))
    return out, ok


def join(a, b):
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta is tb:
        if a == b:
            return a
        if ta is Agg:
            if a.v == b.v and len(a.f) == len(b.f):
                return Agg(a.v, tuple(join(x, y) for x, y in zip(a.f, b.f)))
            if a.v == b.v:
                return top(a, b)
            return Alt({a.v: a.f, b.v: b.f})
        if ta is Alt:
            return _joinalt(a.a, b.a)
        if ta is Seq:
            if not a.chunked and not b.chunked:
                if len(a.e) == len(b.e):
                    if len(a.e) <= 64 and all(type(x) is int for x in a.e) and all(type(x) is int for x in b.e):
                        return OneOf((a, b))
                    if _arrlike(a) or _arrlike(b):
                        return Seq(tuple(join(x, y) for x, y in zip(a.e, b.e)))
                if len(a.e) <= 64 and len(b.e) <= 64 and all(type(x) is int for x in a.e + b.e):
                    return OneOf((a, b))
                if len(a.e) == len(b.e):
                    return Seq(tuple(join(x, y) for x, y in zip(a.e, b.e)))
            el = None
            for x in a.e + b.e:
                if type(x) is Chunk:
                    x = x.e if x.e is not None else top(x)
                el = x if el is None else join(el, x)
            return Seq((Chunk(top(a, b).t, el),))
        if ta is Clo and a.ty == b.ty and len(a.f) == len(b.f):
            return Clo(a.ty, tuple(join(x, y) for x, y in zip(a.f, b.f)))
        if ta is It:
            if len(a.items) == len(b.items) and (a.rest is None) == (b.rest is None):
                return It(tuple(join(x, y) for x, y in zip(a.items, b.items)), None if a.rest is None else join(a.rest, b.rest))
            el = None
            for x in a.items + b.items + tuple(r for r in (a.rest, b.rest) if r is not None):
                el = x if el is None else join(el, x)
            return It((), el if el is not None else top(a, b))
        if ta is MapV:
            if [k for k, _ in a.items] == [k for k, _ in b.items]:
                r = None
                if a.rest is not None and b.rest is not None:
                    r = join(a.rest, b.rest)
                else:
                    r = a.rest if a.rest is not None else b.rest
                return MapV(tuple((k, join(x, y)) for (k, x), (_, y) in zip(a.items, b.items)), a.open or b.open, r)
            da, db = dict(a.items), dict(b.items)
            items = tuple((k, join(v, db[k])) for k, v in a.items if k in db)
            r = None
            for m, o in ((a, db), (b, da)):
                for k, v in m.items:
                    if k not in o:
                        r = v if r is None else join(r, v)
                if m.rest is not None:
                    r = m.rest if r is None else join(r, m.rest)
            return MapV(items, True, r)
        if ta is Obj and a.k == b.k and len(a.f) == len(b.f):
            return Obj(a.k, *[join(x, y) for x, y in zip(a.f, b.f)])
        if ta is Discr:
            return top(a, b)
        if ta is OneOf:
            vs = a.vs | b.vs
            return OneOf(vs) if len(vs) <= 24 else top(a, b)
        if ta is Bits and len(a.b) == len(b.b):
            return mkbits(tuple(x if x == y else -1 for x, y in zip(a.b, b.b)))
        if ta is FI:
            return FI(min(a.lo, b.lo), max(a.hi, b.hi))
        if ta is Sym:
            if is_top(a) or is_top(b):
                return top(a, b)
            return OneOf((a, b))
        if ta in (int, Ref, Rat, float):
            return OneOf((a, b))
        return top(a, b)
    if ta is Agg and tb is Alt:
        return _joinalt({a.v: a.f}, b.a)
    if ta is Alt and tb is Agg:
        return _joinalt(a.a, {b.v: b.f})
    if is_top(a) or is_top(b):
        return top(a, b)
    for x, y in ((a, b), (b, a)):
        if type(x) is OneOf:
            if type(y) is OneOf:
                break
            vs = x.vs | {y}
            return OneOf(vs) if len(vs) <= 24 and type(y) in (int, Seq, Ref, Sym, Rat) else top(a, b)
    if ta in (int, Bits) and tb in (int, Bits):
        w = len(a.b) if ta is Bits else len(b.b)
        x, y = tobits(a, w), tobits(b, w)
        return mkbits(tuple(p if p == q else -1 for p, q in zip(x, y)))
    if ta in (int, Sym) and tb in (int, Sym):
        return OneOf((a, b))
    if ta in (Seq, Sym) and tb in (Seq, Sym):
        return OneOf((a, b))
    return top(a, b)


def _arrlike(s):
    return any(type(x) is not int for x in s.e)


def _joinalt(x, y):
    d = dict(x)
    for k, f in y.items():
        if k in d:
            g = d[k]
            if len(g) == len(f):
                d[k] = tuple(join(p, q) for p, q in zip(g, f))
            else:
                d[k] = tuple(top(*g, *f) for _ in range(max(len(f), len(g))))
        else:
            d[k] = f
    if len(d) == 1:
        k = next(iter(d))
        return Agg(k, d[k])
    return Alt(d)
