"""Signature-suite reference shared by the signature checks."""
import idxlib
import lib
import matterlib as ml
import prims
import spec
from domain import Agg, Alt, Chunk, Obj, S, Seq, sstr, symbytes
from models import uninterp

# seed code: (curve, public key size, non-transferable code, transferable code, unindexed signature code, indexed name)
SUITE = {
    "A": ("ed25519", 32, "B", "D", "0B", "Ed25519"),
    "J": ("secp256k1", 33, "1AAA", "1AAB", "0C", "ECDSA_256k1"),
    "Q": ("p256", 33, "1AAI", "1AAJ", "0I", "ECDSA_256r1"),
}
CURVE = {v[i]: v[0] for v in SUITE.values() for i in (2, 3)}
ICODE = {v[0]: k for k, v in spec.INDEXER.items()}
SER = Seq((Chunk(("inp", "ser")),))


def ser(r):
    return r.ref(SER)


def pub(code, key):
    cv, n = SUITE[code][:2]
    return uninterp("pub_" + cv, n, key)


def sig(code, key, msg=SER):
    return uninterp("sig_" + SUITE[code][0], 64, key, msg)


def signer(ctx, r, code, key, transferable=None, tag="signer"):
    g = {"code": S(code), "raw": key}
    if transferable is not None:
        g["transferable"] = transferable
    return prims.new(r, "Signer", **g)


def curve_of(v):
    return sstr(v) if isinstance(v, Seq) else v
