"""Putting documents together from the pieces TLC enumerates."""
import copy, json

from codec import *
from gen import COLLIDING, FK, PLAIN, META, Gen


def is_ref(v):
    return v["t"] == "o" and len(v["v"]) == 1 and v["v"][0][0] in ("$ref", "ref")


class Conflict(Exception):
    pass


def merge(a, b):
    """two documents in one; lists are joined"""
    if a == b:
        return a
    if a["t"] == "o" and b["t"] == "o":
        if is_ref(a) or is_ref(b):
            raise Conflict()
        out, at = [], {}
        for k, v in a["v"]:
            at[k] = len(out)
            out.append([k, v])
        for k, v in b["v"]:
            if k in at:
                out[at[k]] = [k, merge(out[at[k]][1], v)]
            else:
                out.append([k, v])
        return O(out)
    if a["t"] == "a" and b["t"] == "a":
        return A(a["v"] + b["v"])
    if a["t"] == "o" or b["t"] == "o" or a["t"] == "a" or b["t"] == "a":
        raise Conflict()
    if a["t"] == b["t"] == "s":
        return a
    raise Conflict()


def merged(*ds):
    out = ds[0]
    for d in ds[1:]:
        try:
            out = merge(out, d)
        except Conflict:
            return None
    return out


def fill(d, ref, name="$ref"):
    """the reference "@" of a place set to a string"""
    if d["t"] == "o":
        return O([[name if (k == "$ref" and v == S("@")) else k, S(ref) if (k == "$ref" and v == S("@")) else fill(v, ref, name)] for k, v in d["v"]])
    if d["t"] == "a":
        return A([fill(v, ref, name) for v in d["v"]])
    return d


def put_handle(d, h):
    """the reference "@" of a place replaced by a live object"""
    if d["t"] == "o":
        return H(h) if d == O([["$ref", S("@")]]) else O([[k, put_handle(v, h)] for k, v in d["v"]])
    if d["t"] == "a":
        return A([put_handle(v, h) for v in d["v"]])
    return d


def rename(d, path, marker, names):
    """the keys of the map levels ("*" or the marker) along the path renamed, in order"""
    names = list(names)

    def go(d, path):
        if not path:
            return d
        s, rest = path[0], path[1:]
        if s == "[]":
            return A([go(v, rest) for v in d["v"]])
        if s in ("*", marker):
            n = names.pop(0) if names else marker
            return O([[n if k == marker else k, go(v, rest) if k == marker else v] for k, v in d["v"]])
        return O([[k, go(v, rest) if k == s else v] for k, v in d["v"]])
    return go(d, path)


def pointer(path):
    return "#/" + "/".join(path)


def verdict(arg, p="Unified", how="data"):
    return [{"op": "verdict", "arg": arg, "procs": [p] if isinstance(p, str) else p, "how": how}]


def spell(d, c, which, rng=None):
    """the same data with its fields under their Python names (which = 'py'), or a mixture"""
    return _spell(d, {"k": "obj", "c": c}, which, rng)


def _spell(d, ty, which, rng):
    from gen import pick_alt
    alts = ty["alts"] if ty["k"] == "union" else [ty]
    if d["t"] == "a":
        of = next((a["of"] for a in alts if a["k"] == "list"), None)
        return A([_spell(v, of, which, rng) for v in d["v"]]) if of else d
    if d["t"] != "o":
        return d
    c = pick_alt(ty, d)
    if c is None:
        of = next((a["of"] for a in alts if a["k"] == "dict"), None)
        return O([[k, _spell(v, of, which, rng)] for k, v in d["v"]]) if of and of["k"] != "any" else d
    m = META[c]
    if m["x"] == "map":
        return O([[k, _spell(v, m["of"], which, rng)] for k, v in d["v"]])
    out = []
    for k, v in d["v"]:
        f = next((f for f in m["f"] if k in (f["py"], f["w"])), None)
        if f is None:
            out.append([k, v])
        else:
            w = which if which != "mix" else rng.choice(["py", "w"])
            out.append([f[w], _spell(v, f["ty"], which, rng)])
    return O(out)


COUPLED = {"Channel", "SecurityScheme", "OAuthFlows", "AMQPChannelBindings", "SolaceDestination", "IBMMQChannelBindings", "IBMMQMessageBindings", "KafkaServerBindings", "Reference", "MultiFormatSchema"}


def loose(c, w):
    """may this field be filled without another field having to fit"""
    return c == "Channel" and w not in ("address", "parameters") or c not in COUPLED


def crowd(d, path, rng, styles=("min", "ref", "empty", "rich"), sizes=(1, 1, 2, 3), dress=0.3, c="AsyncAPI3", safe=None):
    """the same place among neighbours: items before and after it in every list and map on its way,
    other fields filled beside it, whose own references are in order (safe: pointers known to be right, by kind)"""
    safe = safe or {}
    plain, rich = Gen(rng, opt=0, ext=0, reflike=0, safe=safe), Gen(rng, opt=0.35, ext=0.05, reflike=0, depth=2, collide=0, safe=safe)

    def sibling(of):
        style = rng.choice(styles)
        alts = of["alts"] if of["k"] == "union" else [of]
        if style == "ref" and any(a.get("c") == "Reference" for a in alts):
            return O([["$ref", S("https://example.com/s%d" % rng.randrange(4))]])
        one = [a for a in alts if a["k"] == "obj" and a["c"] not in ("Reference", "MultiFormatSchema")]
        if style == "empty" and one:
            v = plain.obj(one[0]["c"], 1)
            if META[one[0]["c"]]["x"] == "map" or one[0]["c"] in COUPLED:
                return v
            for f in META[one[0]["c"]]["f"]:
                e = empty(f["ty"])
                if e and f["w"] not in [k for k, _ in v["v"]]:
                    v["v"].append([f["w"], e])
            return v
        return (rich if style == "rich" else plain).ty(of, (), 3)

    def empty(ty):
        for a in ty["alts"] if ty["k"] == "union" else [ty]:
            if a["k"] == "list":
                return A([])
            if a["k"] == "dict" or (a["k"] == "obj" and META[a["c"]]["x"] == "map"):
                return O([])
        return None

    def go(v, ty, path):
        if not path:
            return v
        alts = ty["alts"] if ty["k"] == "union" else [ty]
        s, rest = path[0], path[1:]
        if s == "[]":
            of = next(a["of"] for a in alts if a["k"] == "list")
            before, after = [[sibling(of) for _ in range(rng.choice(sizes) - (i and rng.random() < 0.5))] for i in (0, 1)]
            return A(before + [go(v["v"][0], of, rest)] + v["v"][1:] + after)
        if s == "*":
            of = next(a["of"] if a["k"] == "dict" else META[a["c"]]["of"] for a in alts if a["k"] == "dict" or (a["k"] == "obj" and META[a["c"]]["x"] == "map"))
            before, after = [[["%s%d" % (x, i), sibling(of)] for i in range(rng.choice(sizes) - (x == "z" and rng.random() < 0.5))] for x in "bz"]
            return O(before + [[k, go(w, of, rest) if k == "s" else w] for k, w in v["v"]] + after)
        c = next(a["c"] for a in alts if a["k"] == "obj" and any(f["w"] == s for f in META[a["c"]]["f"]))
        fs = {f["w"]: f for f in META[c]["f"]}
        out = [[k, go(w, fs[k]["ty"], rest) if k == s else w] for k, w in v["v"]]
        for i, f in enumerate(META[c]["f"]):
            if loose(c, f["w"]) and f["w"] not in [k for k, _ in out] and rng.random() < dress:
                x = (rng.random() < 0.5 and empty(f["ty"])) or rich.ty(f["ty"], FK[c][i], 3)
                out.insert(rng.randrange(len(out) + 1), [f["w"], x])
        return O(out)
    return go(d, {"k": "obj", "c": c}, list(path))


def beside(d, path, rng, levels=1, c="AsyncAPI3", safe=None):
    """the same place with one more field in an object on its way: every such field of the innermost objects, one at a time"""
    rich = Gen(rng, opt=0.35, ext=0, reflike=0.2, depth=2, collide=0, safe=safe or {})
    jobs = []

    def classes(ty, path, n):
        alts = ty["alts"] if ty["k"] == "union" else [ty]
        if not path:
            return
        s, rest = path[0], path[1:]
        if s == "[]":
            yield from classes(next(a["of"] for a in alts if a["k"] == "list"), rest, n + 1)
        elif s == "*":
            yield from classes(next(a["of"] if a["k"] == "dict" else META[a["c"]]["of"] for a in alts if a["k"] == "dict" or (a["k"] == "obj" and META[a["c"]]["x"] == "map")), rest, n + 1)
        else:
            c = next(a["c"] for a in alts if a["k"] == "obj" and any(f["w"] == s for f in META[a["c"]]["f"]))
            yield n, c
            yield from classes(next(f["ty"] for f in META[c]["f"] if f["w"] == s), rest, n + 1)

    def at(v, n, i, w, x, first):
        if n == i:
            if any(k == w for k, _ in v["v"]):
                return None
            return O([[w, x]] + v["v"]) if first else O(v["v"] + [[w, x]])
        s = path[n]
        if s == "[]":
            y = at(v["v"][0], n + 1, i, w, x, first)
            return y and A([y] + v["v"][1:])
        k = "s" if s == "*" else s
        out = [[kk, at(z, n + 1, i, w, x, first) if kk == k else z] for kk, z in v["v"]]
        return None if any(z is None for _, z in out) else O(out)
    for i, c in list(classes({"k": "obj", "c": c}, list(path), 0))[-levels:]:
        for j, f in enumerate(META[c]["f"]):
            if loose(c, f["w"]):
                jobs.append((i, f, FK[c][j]))
    for i, f, kinds in jobs:
        x = at(d, 0, i, f["w"], rich.ty(f["ty"], kinds, 2), rng.random() < 0.5)
        if x:
            yield x


NOISE = [I(0), N, B(False), S(""), S("#/nowhere"), S("https://example.com/"), O([["$ref", S("#/nowhere")]]), A([O([["$ref", S("#/nowhere")]])]), O([["a", O([["$ref", S("https://example.com/")]])]]), O([])]


def decorated(d, rng, p=0.6, c="AsyncAPI3"):
    """the same document with extensions, named after fields of their object among others"""
    def go(v, ty):
        from gen import pick_alt
        alts = ty["alts"] if ty["k"] == "union" else [ty]
        if v["t"] == "a":
            of = next((a["of"] for a in alts if a["k"] == "list"), None)
            return A([go(x, of) for x in v["v"]]) if of else v
        if v["t"] != "o":
            return v
        c = pick_alt(ty, v)
        if c is None:
            of = next((a["of"] for a in alts if a["k"] == "dict"), None)
            return O([[k, go(x, of)] for k, x in v["v"]]) if of and of["k"] != "any" else v
        m = META[c]
        if m["x"] == "map":
            return O([[k, go(x, m["of"])] for k, x in v["v"]])
        fs = {n: f for f in m["f"] for n in (f["w"], f["py"])}
        out = [[k, go(x, fs[k]["ty"]) if k in fs else x] for k, x in v["v"]]
        if m["x"] == "ext" and rng.random() < p:
            here = [n for k, _ in v["v"] if k in fs for n in (fs[k]["py"], fs[k]["w"])]
            names = ["x-" + n for n in rng.sample(here, min(len(here), 2)) + [rng.choice(sorted(fs)), rng.choice(["ref", "a", "root", "internal", "type", "deprecated", "ignore", "skip", "name"])]]
            for n in dict.fromkeys(names):
                if n not in {k for k, _ in out} and all(ch in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_." for ch in n):
                    out.insert(rng.randrange(len(out) + 1), [n, rng.choice(NOISE)])
        return O(out)
    return go(d, {"k": "obj", "c": c})
