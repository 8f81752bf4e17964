"""Messages that signing, hashing and verifying are asked about: the opaque message stands for every byte string and decides code
that treats the message as a whole; the others decide code that looks at its length or at its contents."""
import digs
from domain import S, Seq, symbytes

LENGTHS = (0, 1, 2, 3, 8, 15, 16, 17, 20, 31, 32, 33, 44, 48, 55, 56, 57, 63, 64, 65, 66, 88, 100, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 145, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025)
LONG = (1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 16384, 16385, 65535, 65536, 65537, 100000)
HUGE = ((1 << 18) + 7, (1 << 20) + 1)
TEXT = ("\n", "\0", " ", "0", "a", "abc\n", "abc\r\n", "abc\0", " abc", "abc ", "\tabc\t", "\nabc", "\0abc", "\0\0\0\0", "{}", '{"v":"KERI10JSON000000_"}', "[]", '""', "null",
        "ABCD", "AAAA", "abcdefghijklmnopqrstuvwxyz0123456789-_", "=", "abc=", "-AAB", "EAAA" + "A" * 40, "a" * 32, "a" * 43, "a" * 44, "a" * 64, "0" * 64)
RAW = ((255,), (255, 254), (0xEF, 0xBB, 0xBF, 97), (128,), (0, 255), (0xC3, 0x28), tuple(range(256)), (0,) * 32, (255,) * 32, (0,) * 64, (255,) * 64, (0,) * 33)


def filler(n):
    """n concrete bytes without a short period"""
    x = 7
    out = []
    for i in range(n):
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        out.append((x >> 16) & 255)
    return Seq(tuple(out))


def some(thorough=False):
    """name -> message"""
    d = {"any": digs.SER}
    for n in LENGTHS:
        d["%d-bytes" % n] = symbytes("data", n) if n else S("")
    for n in LONG + (HUGE if thorough else ()):
        d["%d-bytes" % n] = filler(n)
    for i, t in enumerate(TEXT):
        d["text-%d" % i] = S(t)
    for i, t in enumerate(RAW):
        d["raw-%d" % i] = Seq(t)
    return d


def few():
    """a selection for checks with many other dimensions"""
    d = some()
    return {k: v for k, v in d.items() if k in ("any", "0-bytes", "1-bytes", "32-bytes", "64-bytes", "65-bytes", "1025-bytes", "4097-bytes", "65537-bytes") or k.startswith("text-") and int(k[5:]) in (0, 1, 5, 7, 9, 14, 15, 21, 25)
            or k == "raw-1"}
