"""Digest reference shared by the digest, said and prefix checks."""
import spec
from domain import Chunk, Seq
from models import uninterp

TAG = {"Blake3_256": "blake3", "Blake3_512": "blake3", "Blake2b_256": "blake2b32", "Blake2b_512": "blake2b64",
       "Blake2s_256": "blake2s32", "SHA3_256": "sha3_256", "SHA3_512": "sha3_512", "SHA2_256": "sha2_256", "SHA2_512": "sha2_512"}
TAGS = {spec.MCODE[n]: TAG[n] for n in spec.DIGESTS}
SIZE = {spec.MCODE[n]: spec.DIGESTS[n] for n in spec.DIGESTS}
SER = Seq((Chunk(("inp", "ser")),))


def digest(code, data):
    return uninterp(TAGS[code], SIZE[code], data)


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def near(code, raw, thorough=False):
    """wrong digests that are close to a right one of known bytes: single bits changed, one letter of the text in the other case,
    all of them in the other case, bytes exchanged, either half of it zero, its bytes reversed, raised by one"""
    e = list(raw.e)
    n = len(e)
    out = []
    for i in range(n):
        for b in range(8) if thorough else (0, 7) if i in (0, n - 1) else (i % 8,):
            out.append(("bit %d of byte %d changed" % (b, i), e[:i] + [e[i] ^ 1 << b] + e[i + 1:]))
    lead = (3 - n % 3) % 3
    bits = [b >> k & 1 for b in [0] * lead + e for k in range(7, -1, -1)]
    sx = [sum(b << 5 - k for k, b in enumerate(bits[i:i + 6])) for i in range(0, len(bits), 6)]

    def back(sx):
        bits = [x >> k & 1 for x in sx for k in range(5, -1, -1)]
        return [sum(b << 7 - k for k, b in enumerate(bits[i:i + 8])) for i in range(0, len(bits), 8)]
    al = [i for i, x in enumerate(sx) if x < 52]
    for which in [[i] for i in al] + [al]:
        y = [B64.index(B64[x].swapcase()) if i in which else x for i, x in enumerate(sx)]
        r = back(y)
        if not any(r[:lead]):
            out.append(("letters %s of the text in the other case" % ("all" if len(which) > 1 else which[0]), r[lead:]))
    h = n // 2
    out += [("second half zero", e[:h] + [0] * (n - h)), ("first half zero", [0] * h + e[h:]), ("reversed", e[::-1]), ("its ends exchanged", e[-1:] + e[1:-1] + e[:1]),
            ("halves exchanged", e[h:] + e[:h]), ("all zero", [0] * n), ("all ones", [255] * n), ("bytes raised by one", [(x + 1) & 255 for x in e]), ("bits inverted", [x ^ 255 for x in e])]
    return [(m, Seq(tuple(x))) for m, x in out if x != e]
