"""Models of serde_json and regex over concrete and partly symbolic text."""
import json as _json
import re as _re

import models as M
import vals
from absint import NEVER
from domain import HEXD, Agg, Bits, Ch, Chunk, MapV, Obj, OneOf, Ref, S, Seq, Sym, V, ishex, sstr

J_NULL, J_BOOL, J_NUM, J_STR, J_ARR, J_OBJ = range(6)


def model(*names):
    def d(f):
        for n in names:
            M.MODELS[n] = f
        return f
    return d


def esc_elems(s):
    """elements of the escaped body of a JSON string, None when not expressible"""
    out = []
    for c in s.e:
        if type(c) is int:
            out += vals.esc(Seq((c,)))[1:-1] if c < 128 else [c]
        elif type(c) is Ch or ishex(c):
            out.append(c)
        elif type(c) is Chunk:
            if M.has_top(Seq((c,))):
                return None
            out.append(Chunk(("jsonesc", c.t)))
        else:
            out.append(Chunk(("jsonesc", Seq((c,)))))
    return out


def text(v):
    """JSON text (elements) of an abstract serde_json::Value, None when not expressible"""
    if type(v) is not Agg:
        return None
    if v.v == J_NULL:
        return list(b"null")
    x = v.f[0] if v.f else None
    if v.v == J_BOOL:
        return list(b"true" if x else b"false") if type(x) is int else [Chunk(("bool", x))]
    if v.v == J_NUM:
        n = x.f[0] if type(x) is Obj and x.k == "jnum" else None
        if type(n) is int:
            return list(str(n).encode())
        if type(n) is float:
            return list(vals.fl(n).encode())
        if isinstance(n, (Sym, Bits)) and not M.has_top(n):
            return [Chunk(("dec", n))]
        return None
    if v.v == J_STR:
        b = esc_elems(x) if type(x) is Seq else None
        return None if b is None else [34] + b + [34]
    if v.v == J_ARR and type(x) is Seq and not x.chunked:
        out = [91]
        for i, y in enumerate(x.e):
            t = text(y)
            if t is None:
                return None
            out += ([44] if i else []) + t
        return out + [93]
    if v.v == J_OBJ and type(x) is MapV and not x.open:
        out = [123]
        for i, (k, y) in enumerate(x.items):
            t = text(y)
            e = esc_elems(k) if type(k) is Seq else None
            if t is None or e is None:
                return None
            out += ([44] if i else []) + [34] + e + [34, 58] + t
        return out + [125]
    return None


def jnum(x):
    return Agg(J_NUM, (Obj("jnum", x),))


@model("serde_json::value::to_value")
def to_value(I, mem, args, c):
    v = I.full(args[0], mem)
    t = M.garg(I, c)
    while t["k"] == "ref":
        t = I.T[t["t"]]
    if t["k"] == "str" or M.tystrip(t) == "alloc::string::String":
        return M.ok(Agg(J_STR, (v,)))
    d = I.deep(v, mem)
    if t["k"] == "bool":
        return M.ok(Agg(J_BOOL, (d,)))
    if t["k"] in ("int", "uint") and t.get("bits", 64) <= 64:
        return M.ok(jnum(d))
    if t["k"] == "float":
        if type(d) is float:
            return M.ok(Agg(J_NULL, ()) if d != d or d in (float("inf"), float("-inf")) else jnum(d))
        return M.ok(Sym(("fjson", I.tm(d))) if not M.has_top(d) else M.top(d))
    if t["s"] == "serde_json::Value" or t["s"].endswith("value::Value") and not t.get("local"):
        return M.ok(d)
    return M.maybe(Sym(("to_value", I.tm(d))) if not M.has_top(d) else M.top(d), S("json error"))


class Bad(Exception):
    pass


class Undecided(Exception):
    pass


class P:
    """recursive descent parser over text elements, strict as serde_json"""

    def __init__(self, e):
        self.e = e
        self.i = 0

    def peek(self):
        if self.i >= len(self.e):
            raise Bad()
        c = self.e[self.i]
        if type(c) is not int:
            raise Undecided()
        return c

    def ws(self):
        while self.i < len(self.e):
            c = self.e[self.i]
            if type(c) is not int:
                raise Undecided()
            if c not in (32, 9, 10, 13):
                return
            self.i += 1

    def lit(self, s, v):
        for ch in s:
            if self.peek() != ord(ch):
                raise Bad()
            self.i += 1
        return v

    def value(self, d=0):
        if d > 127:
            raise Bad()
        self.ws()
        c = self.peek()
        if c == 123:
            return self.obj(d)
        if c == 91:
            return self.arr(d)
        if c == 34:
            return Agg(J_STR, (self.string(),))
        if c == 116:
            return self.lit("true", Agg(J_BOOL, (1,)))
        if c == 102:
            return self.lit("false", Agg(J_BOOL, (0,)))
        if c == 110:
            return self.lit("null", Agg(J_NULL, ()))
        if c == 45 or 48 <= c <= 57:
            return self.number()
        raise Bad()

    def number(self):
        t = ""
        while self.i < len(self.e):
            c = self.e[self.i]
            if type(c) is not int:
                raise Undecided()
            if chr(c) not in "0123456789+-.eE":
                break
            t += chr(c)
            self.i += 1
        if not _re.fullmatch(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?", t):
            raise Bad()
        if _re.fullmatch(r"-?[0-9]+", t):
            n = int(t)
            if t == "-0":
                return jnum(-0.0)
            if -(1 << 63) <= n < 1 << 64:
                return jnum(n)
        f = float(t)
        if f in (float("inf"), float("-inf")):
            raise Bad()
        return jnum(f)

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.e):
                raise Bad()
            c = self.e[self.i]
            self.i += 1
            if type(c) is Ch or ishex(c):
                out.append(c)
                continue
            if type(c) is Chunk:
                if isinstance(c.t, tuple) and c.t and c.t[0] == "jsonesc":
                    x = c.t[1]
                    out += list(x.e) if type(x) is Seq else [Chunk(x)]
                    continue
                raise Undecided()
            if type(c) is not int:
                raise Undecided()
            if c == 34:
                return Seq(tuple(out))
            if c == 92:
                x = self.peek()
                self.i += 1
                m = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
                if x in m:
                    out.append(m[x])
                elif x == 117:
                    u = self.hex4()
                    if 0xD800 <= u < 0xDC00:
                        if self.peek() != 92:
                            raise Bad()
                        self.i += 1
                        if self.peek() != 117:
                            raise Bad()
                        self.i += 1
                        w = self.hex4()
                        if not 0xDC00 <= w < 0xE000:
                            raise Bad()
                        u = 0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00)
                    elif 0xDC00 <= u < 0xE000:
                        raise Bad()
                    out += list(chr(u).encode())
                else:
                    raise Bad()
                continue
            if c < 32:
                raise Bad()
            out.append(c)

    def hex4(self):
        t = ""
        for _ in range(4):
            t += chr(self.peek())
            self.i += 1
        if not _re.fullmatch("[0-9a-fA-F]{4}", t):
            raise Bad()
        return int(t, 16)

    def arr(self, d):
        self.i += 1
        out = []
        self.ws()
        if self.peek() == 93:
            self.i += 1
            return Agg(J_ARR, (Seq(()),))
        while True:
            out.append(self.value(d + 1))
            self.ws()
            c = self.peek()
            self.i += 1
            if c == 93:
                return Agg(J_ARR, (Seq(tuple(out)),))
            if c != 44:
                raise Bad()

    def obj(self, d):
        self.i += 1
        out = []
        self.ws()
        if self.peek() == 125:
            self.i += 1
            return Agg(J_OBJ, (MapV(()),))
        while True:
            self.ws()
            if self.peek() != 34:
                raise Bad()
            k = self.string()
            if any(type(x) is not int for x in k.e):
                raise Undecided()
            self.ws()
            if self.peek() != 58:
                raise Bad()
            self.i += 1
            v = self.value(d + 1)
            for n, (kk, _) in enumerate(out):
                if kk == k:
                    out[n] = (k, v)
                    break
            else:
                out.append((k, v))
            self.ws()
            c = self.peek()
            self.i += 1
            if c == 125:
                return Agg(J_OBJ, (MapV(tuple(out)),))
            if c != 44:
                raise Bad()


def parse(s):
    """('ok', value) | ('err',) | None undecided"""
    if type(s) is not Seq:
        return None
    p = P(s.e)
    try:
        v = p.value()
        p.ws()
        if p.i != len(p.e):
            return ("err",)
        return ("ok", v)
    except Bad:
        return ("err",)
    except Undecided:
        return None


@model("serde_json::de::from_str", "serde_json::de::from_slice")
def from_str(I, mem, args, c):
    d = I.deep(args[0], mem)
    ts = [x["s"] for x in (M.garg(I, c, i) for i in range(2)) if x is not None]
    if any(t.endswith("serde_json::Value") or t.endswith("value::Value") and "serde_json" in t for t in ts):
        r = parse(d)
        if r is not None:
            return M.ok(r[1]) if r[0] == "ok" else M.err(S("json error"))
    return M.maybe(Sym(("json", I.tm(d))) if not M.has_top(d) else M.top(d), S("json error"))


def pretty(v, ind=0):
    if type(v) is not Agg:
        return None
    x = v.f[0] if v.f else None
    pad = lambda n: [10] + [32] * (2 * n)
    if v.v == J_ARR and type(x) is Seq and not x.chunked and x.e:
        out = [91]
        for i, y in enumerate(x.e):
            t = pretty(y, ind + 1)
            if t is None:
                return None
            out += ([44] if i else []) + pad(ind + 1) + t
        return out + pad(ind) + [93]
    if v.v == J_OBJ and type(x) is MapV and not x.open and x.items:
        out = [123]
        for i, (k, y) in enumerate(x.items):
            t = pretty(y, ind + 1)
            e = esc_elems(k) if type(k) is Seq else None
            if t is None or e is None:
                return None
            out += ([44] if i else []) + pad(ind + 1) + [34] + e + [34, 58, 32] + t
        return out + pad(ind) + [125]
    return text(v)


@model("serde_json::ser::to_string", "serde_json::ser::to_string_pretty", "serde_json::ser::to_vec", "serde_json::ser::to_vec_pretty")
def ser(I, mem, args, c):
    d = I.deep(args[0], mem)
    pr = "pretty" in c["p"]
    t = M.garg(I, c)
    while t["k"] == "ref":
        t = I.T[t["t"]]
    if "serde_json" in t["s"] and t["s"].endswith("Value"):
        e = (pretty if pr else text)(d)
        if e is not None:
            return M.ok(Seq(tuple(e)))
    elif (t["k"] == "str" or M.tystrip(t) == "alloc::string::String") and type(d) is Seq:
        e = esc_elems(d)
        if e is not None:
            return M.ok(Seq((34,) + tuple(e) + (34,)))
    k = "jsonpretty" if pr else "jsonser"
    return M.maybe(Seq((Chunk((k, I.tm(d)) if not M.has_top(d) else M.top(d).t),)), S("json error"))


@model("serde_json::number::Number::as_f64", "serde_json::number::Number::as_i64", "serde_json::number::Number::as_u64",
       "serde_json::value::Value::as_i64", "serde_json::value::Value::as_u64", "serde_json::value::Value::as_f64")
def num_as(I, mem, args, c):
    d = I.deep(args[0], mem)
    w = c["p"].rsplit("::", 1)[1]
    if type(d) is Agg and "Value::" in c["p"]:
        if d.v != J_NUM:
            return M.NONE
        d = d.f[0]
    if type(d) is Obj and d.k == "jnum":
        n = d.f[0]
        if w == "as_f64":
            if type(n) in (int, float):
                return M.some(float(n))
        elif type(n) is float:
            return M.NONE
        elif type(n) is int:
            lo, hi = (-(1 << 63), (1 << 63) - 1) if w == "as_i64" else (0, (1 << 64) - 1)
            return M.some(n) if lo <= n <= hi else M.NONE
    return M.maybe_opt(Sym((w, I.tm(d))) if not M.has_top(d) else M.top(d))


@model("serde_json::number::Number::is_i64", "serde_json::number::Number::is_u64", "serde_json::number::Number::is_f64")
def num_is(I, mem, args, c):
    d = I.deep(args[0], mem)
    w = c["p"].rsplit("::", 1)[1]
    if type(d) is Obj and d.k == "jnum" and type(d.f[0]) in (int, float):
        n = d.f[0]
        if w == "is_f64":
            return int(type(n) is float)
        lo, hi = (-(1 << 63), (1 << 63) - 1) if w == "is_i64" else (0, (1 << 64) - 1)
        return int(type(n) is int and lo <= n <= hi)
    return M.top(d)


# ---------------------------------------------------------------- display of serde_json::Value and floats
def display(v, t):
    if "serde_json" in t["s"] and t["s"].endswith("Value"):
        e = text(v)
        if e is not None:
            return Seq(tuple(e))
    if t["k"] == "float" and type(v) is float and v == v and abs(v) < 1e16:
        s = "%r" % v
        if t["s"] == "f32":
            import struct
            s = next((x for x in ("%.*g" % (n, v) for n in range(1, 18)) if struct.unpack("f", struct.pack("f", float(x)))[0] == v), "e")
            s += "" if "." in s else ".0"
        if "e" not in s:
            return S(s[:-2] if s.endswith(".0") else s)
    return None


# ---------------------------------------------------------------- regex
def fixed_len(p):
    """length when every match of the pattern has one fixed length"""
    try:
        w = _re._parser.parse(p).getwidth()
    except Exception:
        return None
    return w[0] if w[0] == w[1] else None


def head_text(s):
    """leading run of concrete ASCII elements"""
    n = 0
    for x in s.e:
        if type(x) is not int or x >= 128:
            break
        n += 1
    return "".join(chr(x) for x in s.e[:n])


def search(p, s):
    """leftmost match of a fixed-length pattern: (start, end) | 'none' | None undecided"""
    if type(s) is not Seq:
        return None
    fp = M.fixre(p)
    try:
        rx = _re.compile(fp, _re.A)
    except _re.error:
        return None
    if all(type(x) is int for x in s.e):
        b = bytes(s.e)
        try:
            m = _re.compile(fp.encode()).search(b) if fixed_len(fp) is not None else None
        except (_re.error, UnicodeEncodeError):
            return None
        if fixed_len(fp) is None:
            return None
        return (m.start(), m.end()) if m else "none"
    if fixed_len(fp) is None or "\\" in fp or fp.startswith("^"):
        return None
    m = rx.search(head_text(s))
    if m:
        return (m.start(), m.end())
    # partly symbolic text: windows that cannot match by their concrete characters
    if any(type(x) is Chunk for x in s.e):
        return None
    cls = classes(fp)
    if cls is None:
        return None
    n = len(cls)
    from domain import B64
    for i in range(len(s.e) - n + 1):
        st = True
        for c, x in zip(cls, s.e[i:i + n]):
            if type(x) is int:
                if x >= 128 or not c.fullmatch(chr(x)):
                    st = False
                    break
            elif type(x) is Ch:
                k = sum(1 for q in B64 if c.fullmatch(q))
                if k == 0:
                    st = False
                    break
                if k < 64:
                    st = None
            elif ishex(x):
                k = sum(1 for q in HEXD if c.fullmatch(q))
                if k == 0:
                    st = False
                    break
                if k < 16:
                    st = None
            else:
                st = None
        if st is True:
            return (i, i + n)
        if st is None:
            return None
    return "none"


def classes(p):
    """one compiled class per character of a fixed-length pattern built of classes, literals, groups and {n}"""
    out = []
    p = _re.sub(r"\(\?P?<\w+>", "(", p)
    p = p.replace("(", "").replace(")", "")
    i = 0
    while i < len(p):
        m = _re.match(r"\[[^\]]*\]|[A-Za-z0-9_ \-:,]", p[i:])
        if not m:
            return None
        i += m.end()
        q = _re.match(r"\{(\d+)\}", p[i:])
        k = 1
        if q:
            k = int(q.group(1))
            i += q.end()
        elif i < len(p) and p[i] in "*+?{|":
            return None
        out += [_re.compile(m.group(0))] * k
    return out


@model("regex::regex::string::Regex::shortest_match")
def re_shortest(I, mem, args, c):
    p = M.re_of(I, args[0], mem)
    d = I.deep(args[1], mem)
    if p is not None:
        r = search(p, d)
        if r == "none":
            return M.NONE
        if r is not None:
            return M.some(r[1])
    if p is not None and not M.has_top(d):
        return M.maybe_opt(Sym(("shortest", p, I.tm(d))))
    return M.maybe_opt(M.top(d))


@model("regex::regex::string::Regex::find")
def re_find(I, mem, args, c):
    p = M.re_of(I, args[0], mem)
    d = I.deep(args[1], mem)
    if p is not None:
        r = search(p, d)
        if r == "none":
            return M.NONE
        if r is not None:
            return M.some(Obj("rematch", r[0], r[1], Seq(d.e[r[0]:r[1]])))
    return M.maybe_opt(M.top(d))


@model("regex::regex::string::Match::start", "regex::regex::string::Match::end", "regex::regex::string::Match::as_str")
def re_m(I, mem, args, c):
    d = I.deep(args[0], mem)
    w = c["p"].rsplit("::", 1)[1]
    if type(d) is Obj and d.k == "rematch":
        if w == "as_str":
            return I.const_ref(d.f[2])
        return d.f[0 if w == "start" else 1]
    return M.NI


@model("regex::regex::string::Regex::captures")
def re_caps(I, mem, args, c):
    p = M.re_of(I, args[0], mem)
    d = I.deep(args[1], mem)
    if p is not None and type(d) is Seq and sstr(d) is not None:
        m = _re.search(M.fixre(p), sstr(d))
        if m is None:
            return M.NONE
        return M.some(Obj("recaps", S(p), d))
    return M.maybe_opt(M.top(d))


@model("regex::regex::string::Captures::name", "regex::regex::string::Captures::get")
def re_cap_name(I, mem, args, c):
    d = I.deep(args[0], mem)
    k = I.deep(args[1], mem)
    k = sstr(k) if type(k) is Seq else k
    if type(d) is Obj and d.k == "recaps" and type(k) in (str, int):
        m = _re.search(M.fixre(sstr(d.f[0])), sstr(d.f[1]))
        try:
            g = m.group(k)
        except (IndexError, _re.error):
            return M.NONE
        if g is None:
            return M.NONE
        return M.some(Obj("rematch", m.start(k), m.end(k), S(g)))
    return M.maybe_opt(M.top(d))


_is_match = M.MODELS["regex::regex::string::Regex::is_match"]


@model("regex::regex::string::Regex::is_match")
def re_is_match(I, mem, args, c):
    p = M.re_of(I, args[0], mem)
    d = I.deep(args[1], mem)
    if p is not None and not p.startswith("^"):
        r = search(p, d)
        if r is not None:
            return int(r != "none")
    return _is_match(I, mem, args, c)


def groups(p):
    """name -> (start, end) offsets of the capturing groups of a fixed-length pattern without nesting"""
    out = {}
    pos = i = 0
    cur = None
    n = 0
    while i < len(p):
        m = _re.match(r"\((?:\?P?<(\w+)>)?", p[i:])
        if m:
            if cur is not None:
                return None
            n += 1
            cur = (m.group(1) or str(n), str(n), pos)
            i += m.end()
            continue
        if p[i] == ")":
            if cur is None:
                return None
            out[cur[0]] = out[cur[1]] = (cur[2], pos)
            cur = None
            i += 1
            continue
        m = _re.match(r"\[[^\]]*\]|[A-Za-z0-9_ \-:,]", p[i:])
        if not m:
            return None
        i += m.end()
        q = _re.match(r"\{(\d+)\}", p[i:])
        if q:
            pos += int(q.group(1))
            i += q.end()
        else:
            if i < len(p) and p[i] in "*+?{|":
                return None
            pos += 1
    out["0"] = (0, pos)
    return out


_replace_all = M.MODELS["regex::regex::string::Regex::replace_all"]


@model("regex::regex::string::Regex::replace_all")
def re_replace(I, mem, args, c):
    p = M.re_of(I, args[0], mem)
    d = I.deep(args[1], mem)
    r = M.sstr_of(I, args[2], mem)
    if p is not None and r is not None and type(d) is Seq and not d.chunked and sstr(d) is None:
        g = groups(M.fixre(p))
        m = _re.fullmatch(r"\$\{?(\w+)\}?", r)
        if g is not None and m and m.group(1) in g:
            a, b = g[m.group(1)]
            out = ()
            e = d.e
            while True:
                w = search(p, Seq(e))
                if w is None:
                    break
                if w == "none":
                    return Agg(1, (Seq(out + e),))
                out += e[:w[0]] + e[w[0] + a:w[0] + b]
                e = e[w[1]:]
    return _replace_all(I, mem, args, c)
