"""Indexer codec helpers."""
import lib
import matterlib as ml
import spec
from domain import S, Seq, symbytes, symbit


def classes(width, name):
    """(value, digits, nz facts) for every number of significant sextets up to width"""
    out = [(0, lib.b64int(0, width), ())]
    for k in range(1, width + 1):
        n = min(6 * k, 32)
        v = lib.symint(name + str(k), n)
        top = [symbit(name + str(k), i) for i in range(6 * (k - 1), n)]
        out.append((v, lib.b64bits(v, width) if 6 * width <= 32 else None, (frozenset(top),)))
    return out


def row(code):
    return spec.INDEXER.get(code) or spec.INDEXER_TEST[code]


def tests(W):
    """test codes of the registry that the tables hold"""
    c = W.consts("indexer::tables::Codex") or {}
    return [x for x, v in spec.INDEXER_TEST.items() if x in c.values()]


def raw_len(code):
    n, hs, ss, os_, ls, fs = row(code)
    return (fs - hs - ss) * 3 // 4 - ls


def text(code, isoft, osoft, raw):
    return lib.text(code, tuple(isoft) + tuple(osoft), raw, row(code)[4])


class X(ml.M):
    def __init__(self, ctx, ty):
        ml.M.__init__(self, ctx, ty, "Indexer")
