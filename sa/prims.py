"""Constructor layouts and permitted codes of the typed primitives (the reference the checks compare against)."""
import idxlib
import lib
import matterlib as ml
import spec
from domain import Seq, symbytes

DIG = tuple(spec.MCODE[d] for d in spec.DIGESTS)
VERF = ("B", "D", "1AAA", "1AAB", "1AAI", "1AAJ")
MATTER_IN = ["code", "raw", "qb64b", "qb64", "qb2"]
STR = ("4A", "5A", "6A", "7AAA", "8AAA", "9AAA")
# type: (new() parameters, permitted codes, default code for raw (None: refused), extra parameter of new_with_raw/other forms)
PRIM = {
    "Verfer": (MATTER_IN, VERF, "B", {}),
    "Diger": (["ser"] + MATTER_IN, DIG, None, {}),
    "Cigar": (["verfer"] + MATTER_IN, ("0B", "0C", "0I"), None, {"raw": ["raw", "verfer", "code"], "*": ["verfer"]}),
    "Signer": (["transferable"] + MATTER_IN, ("A", "J", "Q"), "A", {"raw": ["raw", "transferable", "code"], "*": ["transferable"]}),
    "Salter": (["tier"] + MATTER_IN, ("0A",), "0A", {"raw": ["raw", "code", "tier"], "*": ["tier"]}),
    "Seqner": (["sn", "snh"] + MATTER_IN, ("0A",), "0A", {}),
    "Number": (["num", "numh"] + MATTER_IN, ("M", "0H", "N", "0A"), "M", {}),
    "Dater": (["dts"] + MATTER_IN, ("1AAG",), "1AAG", {}),
    "Bexter": (["bext"] + MATTER_IN, STR, "4A", {}),
    "Pather": (["path", "bext"] + MATTER_IN, STR, "4A", {}),
    "Prefixer": (["ked", "allows"] + MATTER_IN, VERF + DIG, None, {}),
    "Saider": (["sad", "label", "kind", "ignore"] + MATTER_IN, DIG, None, {}),
}
SIGER = ["verfer", "index", "ondex", "code", "raw", "qb64b", "qb64", "qb2"]
SIGER_CODES = tuple(c for c in spec.INDEXER if spec.INDEXER[c][0].startswith(("Ed25519", "ECDSA")))


def args(r, params, given):
    """positional Option arguments; refs for text and bytes"""
    out = []
    for p in params:
        if p not in given:
            out.append(ml.opt(None))
        else:
            v = given[p]
            out.append(ml.opt(r.ref(v) if not isinstance(v, int) and p not in ("num", "sn") else v))
    return out


def new(r, ty, **given):
    """<ty>::new with the named arguments given and every other one None"""
    params = PRIM[ty][0] if ty in PRIM else SIGER
    return r.call(r.W.method(ty, "new"), *args(r, params, given))


def nraw(code):
    if spec.MATTER[code][4] is not None:
        return spec.raw_size(code)
    return 9 - spec.MATTER[code][3]


def forms(code, raw):
    """all input forms of one value: {form: given}"""
    n = len(raw.e)
    hs, ss, ls, fs = spec.MATTER[code][1:]
    soft = lib.b64int((n + ls) // 3, ss) if fs is None else ()
    t = lib.text(code, soft, raw.e, ls)
    return t, {"raw": raw, "qb64b": t, "qb64": t, "qb2": lib.binary(t)}


def crypto_ok(kind, ins):
    """every dependency operation succeeds; no generated key is weak"""
    return kind != "weak"


oracle_strong = crypto_ok
