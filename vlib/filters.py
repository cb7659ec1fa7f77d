"""Filter expressions described as JSON, applied both through pyarrow and in plain Python."""
import pyarrow.compute as pc


def expr(f):
    if f is None:
        return None
    op = f["op"]
    if op == "and":
        return expr(f["a"]) & expr(f["b"])
    if op == "or":
        return expr(f["a"]) | expr(f["b"])
    if op == "not":
        return ~expr(f["a"])
    fld = pc.field(f["field"])
    v = f["value"]
    if op == "==":
        return fld == v
    if op == "!=":
        return fld != v
    if op == "<":
        return fld < v
    if op == ">=":
        return fld >= v
    if op == "in":
        return fld.isin(v)
    raise AssertionError(op)


def test(f, row):
    if f is None:
        return True
    op = f["op"]
    if op == "and":
        return test(f["a"], row) and test(f["b"], row)
    if op == "or":
        return test(f["a"], row) or test(f["b"], row)
    if op == "not":
        return not test(f["a"], row)
    x, v = row[f["field"]], f["value"]
    return {
        "==": lambda: x == v,
        "!=": lambda: x != v,
        "<": lambda: x < v,
        ">=": lambda: x >= v,
        "in": lambda: x in v,
    }[op]()


def absent(like, start):
    """Twelve values of the same type that no dataset has."""
    return [f"absent {start + k}" if isinstance(like, str) else like + 100_000 + start + k for k in range(12)]


def another(rng, f, atoms):
    """A filter of the same form whose lists hold other values."""
    if f is None:
        return None
    if f["op"] == "in":
        vals = next(v for n, v, _ in atoms if n == f["field"])
        value = rng.sample(vals, min(len(vals), rng.randint(1, 3)))
        return {**f, "value": absent(vals[0], 0) + value + absent(vals[0], 12) if len(f["value"]) > 20 else value}
    if f["op"] in ("and", "or", "not"):
        return {**f, **{k: another(rng, f[k], atoms) for k in ("a", "b") if k in f}}
    return f


def gen(rng, atoms, depth=2):
    """atoms: list of (field, [values], numeric?)"""
    c = rng.random()
    if depth and c < 0.15:
        return {"op": "and", "a": gen(rng, atoms, depth - 1), "b": gen(rng, atoms, depth - 1)}
    if depth and c < 0.35:
        return {"op": "or", "a": gen(rng, atoms, depth - 1), "b": gen(rng, atoms, depth - 1)}
    if depth and c < 0.45:
        return {"op": "not", "a": gen(rng, atoms, depth - 1)}
    f, vals, numeric = rng.choice(atoms)
    op = rng.choice(["==", "!=", "in"] + (["<", ">="] if numeric else []))
    if op == "in":
        value = rng.sample(vals, min(len(vals), rng.randint(1, 3)))
        if rng.random() < 0.35:  # a long list, most of which occurs nowhere
            value = absent(vals[0], 0) + value + absent(vals[0], 12)
        return {"op": "in", "field": f, "value": value}
    return {"op": op, "field": f, "value": rng.choice(vals)}
