"""C20 OneToManyDict and KeyValueDictSet against sets of pairs"""
from collections import Counter

from hypothesis import strategies as st

from ..core import Case
from ..core import Check
from ..core import require

from scaled.utility.key_value_set import KeyValueDictSet
from scaled.utility.one_to_many_dict import OneToManyDict

TECHNIQUE = "model-based property testing (Hypothesis) against sets of pairs"
LEVEL_NOTE = "Exploration of random operation sequences; trusts the set models."
ASSUMPTIONS = []


# falsy items, items of equal hash
KEYS = [b"k", 0, -1, -2]
VALUES = [0, -1, -2, b"", "x", (1,)]


def plans():
    k = st.integers(0, 3)
    v = st.integers(0, 5)
    op = st.one_of(
        st.tuples(st.sampled_from(["add", "add", "add", "has", "rmv"]), k, v).map(list),
        st.tuples(st.sampled_from(["rmk", "vals", "key"]), k, v).map(list),
    )
    return st.one_of(st.lists(op, min_size=1, max_size=50), st.lists(op, min_size=15, max_size=60))


def attempt(f, *a):
    try:
        return ("ok", f(*a))
    except (KeyError, ValueError) as e:
        return ("err", None)


def same(c, model, what):
    keys = {k for k, _ in model}
    require(set(c.keys()) == keys, f"{what}: keys {set(c.keys())}, expected {keys}")
    for k in KEYS:
        require((k in c) == (k in keys), f"{what}: {k} in container is {k in c}")
    want = {k: {v for kk, v in model if kk == k} for k in keys}
    require({k: set(v) for k, v in c.items()} == want, f"{what}: items {dict(c.items())}, expected {want}")
    require(Counter(map(frozenset, c.values())) == Counter(map(frozenset, want.values())), f"{what}: values differ")


def execute_otm(plan):
    c = OneToManyDict()
    model = set()
    flags = set()
    for op, k, v in plan:
        k, v = KEYS[k], VALUES[v]
        owner = next((kk for kk, vv in model if vv == v), None)
        if op == "add":
            r = attempt(c.add, k, v)
            ok = owner is None or owner == k
            require((r[0] == "ok") == ok, f"add({k},{v}) with {model}: {r}")
            if ok:
                model.add((k, v))
            else:
                flags.add("conflict")
        elif op == "has":
            require(c.has_key(k) == any(kk == k for kk, _ in model), f"has_key({k}) wrong for {model}")
            require(c.has_value(v) == (owner is not None), f"has_value({v}) wrong for {model}")
        elif op == "rmv":
            r = attempt(c.remove_value, v)
            require(r == (("ok", owner) if owner is not None else ("err", None)), f"remove_value({v}): {r} for {model}")
            if owner is not None:
                model.discard((owner, v))
                flags.add("removed")
        elif op == "rmk":
            vals = {vv for kk, vv in model if kk == k}
            r = attempt(c.remove_key, k)
            require((r[0] == "ok") == bool(vals) and (not vals or set(r[1]) == vals), f"remove_key({k}): {r} for {model}")
            if len(vals) > 1:
                flags.add("multi-removed")
            model = {(kk, vv) for kk, vv in model if kk != k}
        elif op == "vals":
            vals = {vv for kk, vv in model if kk == k}
            r = attempt(c.get_values, k)
            require((r[0] == "ok") == bool(vals) and (not vals or set(r[1]) == vals), f"get_values({k}): {r} for {model}")
        elif op == "key":
            r = attempt(c.get_key, v)
            require(r == (("ok", owner) if owner is not None else ("err", None)), f"get_key({v}): {r} for {model}")
        same(c, model, f"after {op}({k},{v})")
        for vv in VALUES:
            o = next((kk for kk, x in model if x == vv), None)
            require(c.has_value(vv) == (o is not None), f"after {op}({k},{v}): has_value({vv})")
    return Case("removed" in flags or "conflict" in flags, flags)


def execute_kv(plan):
    c = KeyValueDictSet()
    model = set()
    flags = set()
    for op, k, v in plan:
        k, v = KEYS[k], VALUES[v]
        vals = {vv for kk, vv in model if kk == k}
        if op == "add":
            c.add(k, v)
            model.add((k, v))
        elif op == "rmv":
            if k in {kk for kk, _ in model}:
                r = attempt(c.remove_value, k, v)
                require((r[0] == "ok") == (v in vals), f"remove_value({k},{v}): {r} for {model}")
                if v in vals:
                    flags.add("removed")
                    model.discard((k, v))
            else:
                require(attempt(c.remove_value, k, v)[0] == "err", f"remove_value({k},{v}) of an absent key succeeded")
        elif op == "rmk":
            r = attempt(c.remove_key, k)
            require((r[0] == "ok") == bool(vals) and (not vals or set(r[1]) == vals), f"remove_key({k}): {r} for {model}")
            model = {(kk, vv) for kk, vv in model if kk != k}
        elif op == "vals":
            r = attempt(c.get_values, k)
            require((r[0] == "ok") == bool(vals) and (not vals or set(r[1]) == vals), f"get_values({k}): {r} for {model}")
        same(c, model, f"after {op}({k},{v})")
    return Case("removed" in flags, flags)


CHECKS = [
    Check("one_to_many", plans, execute_otm, 6000, 300000,
          "random operation sequences vs a set of pairs; non-trivial: a removal or a conflicting add happened"),
    Check("key_value_set", plans, execute_kv, 5000, 300000,
          "random operation sequences vs a set of pairs; non-trivial: a value was removed"),
]
