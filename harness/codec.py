"""Values <-> the tagged form the specification uses."""

N = {"t": "n", "v": "null"}


def S(s):
    return {"t": "s", "v": s}


def I(i):
    return {"t": "i", "v": i} if -2**31 < i < 2**31 else {"t": "j", "v": str(i)}


def B(b):
    return {"t": "b", "v": b}


def A(xs):
    return {"t": "a", "v": list(xs)}


def O(pairs):
    return {"t": "o", "v": [list(p) for p in pairs]}


def H(i):
    return {"t": "h", "v": i}


def enc(v):
    if v is None:
        return N
    if v is True or v is False:
        return {"t": "b", "v": v}
    if isinstance(v, int):
        return I(int(v))
    if isinstance(v, float):
        return {"t": "f", "v": repr(v)}
    if isinstance(v, str):
        return {"t": "s", "v": str(v)}
    if type(v) is list:
        return {"t": "a", "v": [enc(x) for x in v]}
    if type(v) is dict:
        return {"t": "o", "v": [[k if isinstance(k, str) else "?%r" % (k,), enc(x)] for k, x in v.items()]}
    return {"t": "?", "v": type(v).__name__}


def dec(v, heap=None):
    t = v["t"]
    if t == "n":
        return None
    if t in "bis":
        return v["v"]
    if t == "j":
        return int(v["v"])
    if t == "f":
        return float(v["v"])
    if t == "a":
        return [dec(x, heap) for x in v["v"]]
    if t in "ou":
        return {k: dec(x, heap) for k, x in v["v"]}
    if t == "h":
        return heap[v["v"]]
    raise ValueError(t)
