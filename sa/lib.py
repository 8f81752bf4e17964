"""Oracle helpers shared by the checks: CESR text and binary layout over symbolic bits."""
from domain import B64, Bits, Ch, Seq, b64dec, b64enc, chbits, mkbits, mkch, symbit, symbytes, tobits


def text(code, soft, raw, ls):
    """qualified base64: code, soft characters, then pre-padded raw without the characters the code replaces"""
    ps = (3 - len(raw) % 3) % 3
    return Seq(tuple(code.encode()) + tuple(soft) + tuple(b64enc([0] * ps + list(raw), pad=False)[ps - ls:]))


def binary(t):
    """base64 decode of a quadlet-aligned text"""
    assert len(t.e) % 4 == 0
    bits = []
    for c in t.e:
        bits.extend(reversed(chbits(c)))
    return Seq(tuple(mkbits(tuple(reversed(bits[i:i + 8]))) for i in range(0, len(bits), 8)))


def b64int(n, width):
    return tuple(ord(B64[(n >> (6 * (width - 1 - i))) & 63]) for i in range(width))


def b64bits(v, width):
    """base64 digits (big-endian) of an integer abstract value of 32 bits"""
    b = tobits(v, 6 * width)
    return tuple(mkch(b[6 * (width - 1 - i):6 * (width - i)]) for i in range(width))


def symint(name, nbits, width=32):
    """unknown integer below 2^nbits"""
    return mkbits(tuple(symbit(name, i) for i in range(nbits)) + (0,) * (width - nbits))


def symchars(name, n):
    """n unknown base64url characters"""
    return tuple(Ch(tuple(symbit(name, 6 * i + k) for k in range(6))) for i in range(n))


def bits_of(name, n):
    return tuple(symbit(name, i) for i in range(n))


def mined(W, files, lo=8, hi=1 << 16):
    """integer constants (other than table entries and characters) in the bodies of the functions of the given source files: a behaviour
    that changes at some length or count is written with such a constant, so samples are taken at and around them"""
    ints = {i for i, t in enumerate(W.T) if t["k"] in ("int", "uint") and t["bits"] >= 16}
    out = set()

    def walk(x, loc):
        if isinstance(x, dict):
            v = x.get("v")
            if "c" in x and isinstance(v, dict) and "int" in v:
                if x["c"] in ints:
                    out.add(int(v["int"]))
                return
            for y in x.values():
                walk(y, loc)
        elif isinstance(x, list):
            if x and x[0] == "adt":
                return
            if x and x[0] == "switch":
                p = x[1].get("m") or x[1].get("p")
                if p and len(p) == 1 and loc[p[0]] in ints:
                    out.update(int(a) for a, b in x[2])
                return
            for y in x:
                walk(y, loc)
    for f in W.F:
        if f.get("local") and f.get("body") and f["sp"].split(":")[0] in files:
            for b in f["body"]["blocks"]:
                walk(b["s"], f["body"]["locals"])
                walk(b["t"], f["body"]["locals"])
    return sorted(v for v in out if lo <= v <= hi)


def around(W, files, lo=8, hi=1 << 16):
    return sorted({m for v in mined(W, files, lo, hi) for m in (v - 1, v, v + 1)})


# texts at which careless normalisation (trimming, case folding, unescaping, Unicode folding, number parsing, path cleaning) shows itself
ODD = ("\0", "a\0", "\0a", "a\0b", " ", "a ", " a", "a b", "a\n", "\na", "a\r\n", "\ta", "a\t", "A", "aB", "a/", "/a", "/", "//a", "a//b", "./a", "../a", "a/../b", "%41", "a%2f", "a+b", "\\", "a\\b",
       "\"a\"", "'a'", "0", "00", "01", "0x1", "+1", "-1", "1e3", "1_0", "\u00e9", "e\u0301", "\u212b", "\u00c5", "\ufb01", "\u00df", "\u0130", "\ufeffa", "\u200b", "\u00a0a", "a\u3000", "\U0001f511",
       "null", "None", "a=", "a==", "-", "_", "a-b_c", "{}", "{0}", "%s", "a" * 64, "a" * 65, "a" * 127, "a" * 255, "a" * 257)
