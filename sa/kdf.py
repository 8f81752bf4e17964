"""Reference for key stretching: Argon2id version 0x13, one lane, costs per tier; the result is an unknown function of all its inputs."""
from domain import Agg, Obj, S, Seq, symbytes

COST = {"min": (8, 1, 1), "low": (65536, 2, 1), "med": (262144, 3, 1), "high": (1048576, 4, 1)}
ID, V13 = Agg(2, ()), Agg(1, ())


def text(p):
    return p if isinstance(p, Seq) else S(p)


def stretched(path, salt, n, tier):
    return symbytes(("argon", Obj("argon", ID, V13, Obj("argon_params", *COST[tier])), text(path), salt, n), n)
