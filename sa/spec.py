"""The published CESR / KERI tables, frozen here as the oracle (hand-checked against the CESR draft and KERIpy).

Nothing in this file is read from /repo."""

V = None  # variable size

# code: (name, hs, ss, ls, fs)
MATTER = {}


def _m(name, code, ss, ls, fs):
    MATTER[code] = (name, len(code), ss, ls, fs)


for n, c, fs in [
    ("Ed25519_Seed", "A", 44), ("Ed25519N", "B", 44), ("X25519", "C", 44), ("Ed25519", "D", 44),
    ("Blake3_256", "E", 44), ("Blake2b_256", "F", 44), ("Blake2s_256", "G", 44), ("SHA3_256", "H", 44),
    ("SHA2_256", "I", 44), ("ECDSA_256k1_Seed", "J", 44), ("Ed448_Seed", "K", 76), ("X448", "L", 76),
    ("Short", "M", 4), ("Big", "N", 12), ("X25519_Private", "O", 44), ("X25519_Cipher_Seed", "P", 124),
    ("ECDSA_256r1_Seed", "Q", 44),
    ("Salt_128", "0A", 24), ("Ed25519_Sig", "0B", 88), ("ECDSA_256k1_Sig", "0C", 88), ("Blake3_512", "0D", 88),
    ("Blake2b_512", "0E", 88), ("SHA3_512", "0F", 88), ("SHA2_512", "0G", 88), ("Long", "0H", 8),
    ("ECDSA_256r1_Sig", "0I", 88),
    ("ECDSA_256k1N", "1AAA", 48), ("ECDSA_256k1", "1AAB", 48), ("Ed448N", "1AAC", 80), ("Ed448", "1AAD", 80),
    ("Ed448_Sig", "1AAE", 56), ("Tern", "1AAF", 8), ("DateTime", "1AAG", 36), ("X25519_Cipher_Salt", "1AAH", 100),
    ("ECDSA_256r1N", "1AAI", 48), ("ECDSA_256r1", "1AAJ", 48),
]:
    _m(n, c, 0, 0, fs)
_m("TBD1", "2AAA", 0, 1, 8)
_m("TBD2", "3AAA", 0, 2, 8)
for fam, t in (("StrB64", "A"), ("Bytes", "B")):
    for ls in range(3):
        _m("%s_L%d" % (fam, ls), "456"[ls] + t, 2, ls, V)
        _m("%s_Big_L%d" % (fam, ls), "789"[ls] + "AA" + t, 4, ls, V)

DIGESTS = {"Blake3_256": 32, "Blake3_512": 64, "Blake2b_256": 32, "Blake2b_512": 64, "Blake2s_256": 32,
           "SHA3_256": 32, "SHA3_512": 64, "SHA2_256": 32, "SHA2_512": 64}
NONTRANS = ["Ed25519N", "ECDSA_256k1N", "Ed448N", "ECDSA_256r1N"]
MCODE = {v[0]: k for k, v in MATTER.items()}


def raw_size(code):
    n, hs, ss, ls, fs = MATTER[code]
    return (fs - hs - ss) * 3 // 4 - ls


# code: (name, hs, ss, os, ls, fs)
INDEXER = {}
for n, c, ss, os_, fs in [
    ("Ed25519", "A", 1, 0, 88), ("Ed25519_Crt", "B", 1, 0, 88),
    ("ECDSA_256k1", "C", 1, 0, 88), ("ECDSA_256k1_Crt", "D", 1, 0, 88),
    ("ECDSA_256r1", "E", 1, 0, 88), ("ECDSA_256r1_Crt", "F", 1, 0, 88),
    ("Ed448", "0A", 2, 1, 156), ("Ed448_Crt", "0B", 2, 1, 156),
    ("Ed25519_Big", "2A", 4, 2, 92), ("Ed25519_Big_Crt", "2B", 4, 2, 92),
    ("ECDSA_256k1_Big", "2C", 4, 2, 92), ("ECDSA_256k1_Big_Crt", "2D", 4, 2, 92),
    ("ECDSA_256r1_Big", "2E", 4, 2, 92), ("ECDSA_256r1_Big_Crt", "2F", 4, 2, 92),
    ("Ed448_Big", "3A", 6, 3, 160), ("Ed448_Big_Crt", "3B", 6, 3, 160),
]:
    INDEXER[c] = (n, len(c), ss, os_, 0, fs)
# indexed codes with lead bytes exist only as the test codes of the registry
INDEXER_TEST = {"1z": ("TBD1", 2, 2, 1, 1, 76), "4z": ("TBD4", 2, 6, 3, 1, 80)}
CURRENT_ONLY = [c for c, v in INDEXER.items() if v[0].endswith("_Crt")]
BOTH = [c for c, v in INDEXER.items() if not v[0].endswith("_Crt")]
ICODE = {v[0]: k for k, v in INDEXER.items()}

# code: (name, hs, ss, fs)
COUNTER = {}
for n, c in [
    ("ControllerIdxSigs", "-A"), ("WitnessIdxSigs", "-B"), ("NonTransReceiptCouples", "-C"),
    ("TransReceiptQuadruples", "-D"), ("FirstSeenReplayCouples", "-E"), ("TransIdxSigGroups", "-F"),
    ("SealSourceCouples", "-G"), ("TransLastIdxSigGroups", "-H"), ("SealSourceTriples", "-I"),
    ("SadPathSig", "-J"), ("SadPathSigGroup", "-K"), ("PathedMaterialQuadlets", "-L"),
    ("AttachedMaterialQuadlets", "-V"),
]:
    COUNTER[c] = (n, 2, 2, 4)
COUNTER["-0V"] = ("BigAttachedMaterialQuadlets", 3, 5, 8)
COUNTER["--AAA"] = ("KERIProtocolStack", 5, 3, 8)
