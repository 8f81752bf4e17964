"""Literals of the dat! macro: the witness crate (witness/lib.rs) is type-checked against the tree with the real compiler and each of its
functions, one literal each, is analysed; the oracle is the value the literal denotes."""
import facts
import vals
from checks import p22
from domain import S, mkbits, symbit
from pathlib_ import each, same

X = vals.I64(mkbits(tuple(symbit("x", i) for i in range(64))))
Y = p22.txt("y")
VAL = {"q": [1, None]}


def twice(n):
    return n + n


# literal -> (arguments, the value it denotes); 'x32' is the number 21
WANT = {
    "l_null": ((), None), "l_true": ((), True), "l_false": ((), False), "l_array": ((), []), "l_object": ((), {}), "l_int": (("x",), X), "l_u32": (("u32",), 4000000000),
    "l_text": (("y",), Y), "l_string": (("y",), Y), "l_value": (("value",), VAL), "l_minus": ((), -7), "l_float": ((), 1.5), "l_sum": ((), 14), "l_call": (("x32",), 42), "l_block": ((), 5),
    "a_one": (("x",), [X]), "a_one_comma": (("x",), [X]), "a_two": (("x", "y"), [X, Y]),
    "a_kinds": (("x", "y"), [None, True, False, [], {}, [X], {"k": Y}, X, Y]), "a_kinds_back": (("x", "y"), [Y, X, {"k": Y}, [X], {}, [], False, True, None]), "a_kinds_comma": (("x",), [X, None]),
    "a_last_true": ((), [1, True]), "a_last_true_comma": ((), [1, True]), "a_last_false": ((), [1, False]), "a_last_false_comma": ((), [1, False]), "a_last_array": ((), [1, [2, 3]]),
    "a_last_array_comma": ((), [1, [2, 3]]), "a_last_object": ((), [1, {"a": 2}]), "a_last_object_comma": ((), [1, {"a": 2}]), "a_first_null": ((), [None]), "a_nulls": ((), [None] * 3),
    "a_trues": ((), [True, True, False, False, True]), "a_nested": ((), [[[[]]], [[], [[], []]]]), "a_exprs": (("x32",), [42, -1, 2, "t", 0.25, 2]), "a_many": ((), list(range(20))),
    "o_one": (("x",), {"a": X}), "o_one_comma": (("x",), {"a": X}),
    "o_kinds": (("x", "y"), {"z": None, "y": True, "x": False, "w": [], "v": {}, "u": [X], "t": {"k": Y}, "s": X, "r": Y}),
    "o_kinds_back": (("x", "y"), {"a": Y, "b": X, "c": {"k": Y}, "d": [X], "e": {}, "f": [], "g": False, "h": True, "i": None}),
    "o_last_null_comma": ((), {"a": 1, "b": None}), "o_last_true_comma": ((), {"a": 1, "b": True}), "o_last_false_comma": ((), {"a": 1, "b": False}), "o_last_array": ((), {"a": 1, "b": [2, 3]}),
    "o_last_array_comma": ((), {"a": 1, "b": [2, 3]}), "o_last_object": ((), {"a": 1, "b": {"c": 2}}), "o_last_object_comma": ((), {"a": 1, "b": {"c": 2}}),
    "o_repeated": (("x",), {"a": X, "b": 2}), "o_repeated_kinds": ((), {"a": None, "b": {"c": 1}}), "o_empty_name": (("x",), {"": X, " ": 1}),
    "o_nested": (("x",), {"a": {"b": {"c": [{"d": X}, {"d": None}]}}, "b": {"a": []}}), "o_same_names": ((), {"a": {"a": {"a": 1}}, "b": {"a": 2}}), "o_key_text": (("name",), {"name": 1, "other": 2}),
    "o_key_paren": (("name",), {"name": 1}), "o_key_expr": ((), {"ab": 1, "cd": 2}), "o_exprs": (("x32", "value"), {"a": 42, "b": -1, "c": 2, "d": "t", "e": 0.25, "f": VAL}),
    "o_order": ((), {"9": 0, "10": 1, "1": 2, "Z": 3, "a": 4, "A": 5, "_": 6}),
    "o_event": (("y",), {"v": "KERI10JSON000000_", "t": "icp", "d": "", "i": Y, "s": "0", "kt": "1", "k": [Y], "nt": "0", "n": [], "bt": "0", "b": [], "c": [], "a": []}),
}


def world(ctx):
    """the witness crate; None, and reported, when it does not type-check although the crate does"""
    ctx.W  # noqa: B018  the crate itself builds
    try:
        return ctx.world(facts.WITNESS)
    except facts.BuildError as e:
        text = str(e)
        lines = [x for x in text.splitlines() if x.startswith("error")]
        if "src/lib.rs" in text and "macro `dat`" in text or any("dat" in x and "macro" in x for x in lines):
            ctx.fail("literals/compile", "src/data.rs: macro dat!", "a literal of the dat! macro no longer compiles: %s" % "; ".join(lines)[:300])
        else:
            ctx.unknown("literals/compile", "the witness crate does not build: %s" % "; ".join(lines)[:300])
        return None


def literal(ctx, name):
    D = ctx.world(facts.WITNESS)
    args, want = WANT[name]
    c = D.idx.get("wasm::" + name)
    k = "literal/" + name
    if not c:
        ctx.unknown(k, "no such witness")
        return
    r = D.run()
    given = {"x": lambda: X.bits, "y": lambda: r.ref(Y), "u32": lambda: 4000000000, "x32": lambda: 21, "value": lambda: vals.val(VAL), "name": lambda: r.ref(S("name"))}
    each(ctx, k, r, c[0], [given[a]() for a in args], "the dat! literal %s of witness/lib.rs" % name,
         lambda p, kk, w, bad: same(ctx, p, kk, w, bad, p.run.deep(p.out.v), vals.val(want), "its value") if not p.out.never else bad(kk, w + ": panics"))


def check(ctx):
    if world(ctx) is not None:
        ctx.pmap(literal, [(n,) for n in WANT])
