"""cesride data values: python literal -> abstract Value, and the reference JSON text."""
from domain import Agg, Bits, Chunk, MapV, Obj, S, Seq, V

class I64:
    """an unknown signed 64-bit integer"""

    def __init__(self, bits):
        self.bits = bits


class Pairs:
    """an object given as (key, value) pairs; keys may be unknown texts"""

    def __init__(self, *kv):
        self.kv = kv

    def items(self):
        return self.kv


NULL, BOOL, NUM, STR, ARR, OBJ = range(6)
FIELDS = ["f", "i", "float"]
VARIANTS = ["Null", "Boolean", "Number", "String", "Array", "Object"]


def bind(W):
    """take the layout of Value and Number from the analysed program"""
    global NULL, BOOL, NUM, STR, ARR, OBJ, FIELDS
    try:
        n = [f["n"] for f in W.adts[W.adt("data::Number")]["vs"][0]["f"]]
        v = [x["n"] for x in W.adts[W.adt("data::Value")]["vs"]]
    except Exception:
        return
    FIELDS = n if sorted(n) == ["f", "float", "i"] else None
    if sorted(v) == sorted(VARIANTS):
        NULL, BOOL, NUM, STR, ARR, OBJ = (v.index(x) for x in VARIANTS)
    else:
        FIELDS = None


def number(f, i, fl):
    if FIELDS is None:
        from world import Missing
        raise Missing("the layout of data::Number and data::Value")
    d = {"f": f, "i": i, "float": fl}
    return Agg(0, tuple(d[n] for n in FIELDS))


def num(x):
    return number(x, 0, 1) if isinstance(x, float) else number(0.0, x, 0)


def val(x):
    """python data (dict/list/str/int/float/bool/None; Seq for symbolic text) as a cesride Value"""
    if x is None:
        return Agg(NULL, ())
    if x is True or x is False:
        return Agg(BOOL, (int(x),))
    if isinstance(x, (int, float)):
        return Agg(NUM, (num(x),))
    if isinstance(x, str):
        return Agg(STR, (S(x),))
    if isinstance(x, I64):
        return Agg(NUM, (number(0.0, x.bits, 0),))
    if isinstance(x, Seq):
        return Agg(STR, (x,))
    if isinstance(x, (list, tuple)):
        return Agg(ARR, (Seq(tuple(val(y) for y in x)),))
    if isinstance(x, (dict, Pairs)):
        return Agg(OBJ, (MapV(tuple((S(k) if isinstance(k, str) else k, val(v)) for k, v in x.items())),))
    raise TypeError(x)


ESC = {8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\"}


def esc(s):
    """elements of the JSON string literal of a text"""
    b = s.encode() if isinstance(s, str) else s.e
    out = [34]
    for c in b:
        if type(c) is int and c in ESC:
            out += ESC[c].encode()
        elif type(c) is int and c < 32:
            out += ("\\u%04x" % c).encode()
        elif type(c) is Chunk:
            out.append(Chunk(("jsonesc", c.t)))
        elif type(c) is Bits:
            out.append(Chunk(("jsonesc", Seq((c,)))))
        else:
            out.append(c)
    return out + [34]


def json(x):
    """reference JSON text elements: insertion order, no whitespace, minimal escaping"""
    if x is None:
        return list(b"null")
    if x is True:
        return list(b"true")
    if x is False:
        return list(b"false")
    if isinstance(x, I64):
        return [Chunk(("dec", x.bits))]
    if isinstance(x, int):
        return list(str(x).encode())
    if isinstance(x, float):
        return list(fl(x).encode())
    if isinstance(x, (str, Seq)):
        return esc(x)
    if isinstance(x, (list, tuple)):
        out = [91]
        for i, y in enumerate(x):
            out += ([44] if i else []) + json(y)
        return out + [93]
    if isinstance(x, (dict, Pairs)):
        out = [123]
        for i, (k, v) in enumerate(x.items()):
            out += ([44] if i else []) + esc(k) + [58] + json(v)
        return out + [125]
    raise TypeError(x)


def fl(x):
    """shortest round-trip decimal in the layout of the ryu pretty printer"""
    if x != x or x in (float("inf"), float("-inf")):
        return "null"
    sign = "-" if str(x).startswith("-") else ""
    x = abs(x)
    if x == 0:
        return sign + "0.0"
    m = "%r" % x
    mant, _, ex = m.partition("e")
    ip, _, fp = mant.partition(".")
    e = int(ex or 0)
    digits = (ip + fp)
    e -= len(fp)
    s = digits.lstrip("0")
    while s.endswith("0"):
        s = s[:-1]
        e += 1
    n = len(s)
    kk = n + e
    if 0 <= e and kk <= 16:
        return sign + s + "0" * e + ".0"
    if 0 < kk <= 16:
        return sign + s[:kk] + "." + s[kk:]
    if -5 < kk <= 0:
        return sign + "0." + "0" * -kk + s
    if n == 1:
        return sign + s + "e%d" % (kk - 1)
    return sign + s[0] + "." + s[1:] + "e%d" % (kk - 1)


def seq(x):
    return Seq(tuple(json(x)))
