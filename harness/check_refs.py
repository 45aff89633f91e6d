"""A01-A08: references."""
import itertools, json

import real, words
from codec import *
from docs import *
from gen import Gen, COLLIDING, KEYCHARS, PLAIN, targets

INV = "INIT Init\nNEXT Next\nINVARIANTS %s\n"


class Places:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        d = ctx.cases("refs")
        self.refs = d["refs"]
        self.parts = [p for p in d["parts"] if p["path"]]
        self.kinds = sorted(d["kinds"])
        self.holders = d["holders"]
        self.of = {k: [p for p in self.parts if p["kinds"] == [k]] for k in self.kinds}
        self.direct = {k: [p for p in ps if len(p["path"]) == 3 and p["path"][0] == "components"] for k, ps in self.of.items()}

    def part(self, kind, direct=False):
        ps = self.direct[kind] if direct and self.direct[kind] else self.of[kind]
        return self.rng.choice(ps)

    def right(self, slot, direct=False):
        return self.part(self.rng.choice(slot["kinds"]), direct)

    def doc(self, slot, ref, *parts, name="$ref"):
        return merged(fill(slot["d"], ref, name), *[p["d"] for p in parts])


def how(rng):
    return rng.choice(["data", "data", "json", "kw"])


def wire_pointers(p):
    return pointer(p["path"])


def random_docs(ctx, n, wrong, p="Unified", **kw):
    out = []
    for _ in range(n):
        g = Gen(ctx.rng, names=ctx.rng.choice(["wire", "wire", "py", "mix"]), opt=ctx.rng.choice([0.15, 0.3, 0.45]), plan=True, ext=0.02, keys=ctx.rng.sample(ctx.rng.choice([["a", "b", "c"], PLAIN[:8], COLLIDING]), 2) if ctx.rng.random() < 0.15 else None, **kw)
        out.append(verdict(g.doc(wrong=wrong), p, how(ctx.rng)))
    return out


def copies(slot, rng, refs, level):
    """the place in a container with several elements; element i holds refs[i]"""
    stars = [i for i, s in enumerate(slot["path"]) if s in ("*", "[]")]
    if not stars:
        return None
    at = stars[level % len(stars)]
    nth = sum(1 for s in slot["path"][:at] if s == "*")
    out = None
    for i, r in enumerate(refs):
        d = fill(slot["d"], r)
        names = ["s"] * nth + (["s%d" % i] if slot["path"][at] == "*" else [])
        d = rename(d, slot["path"], "s", names)
        if out is None:
            out = d
        else:
            out = join(out, d, slot["path"], at)
        if out is None:
            return None
    return out


def join(a, b, path, at):
    """b's element at the given level added to a; everything else is taken from a"""
    def go(a, b, i):
        s = path[i]
        if i == at:
            return A(a["v"] + b["v"]) if s == "[]" else O(a["v"] + b["v"])
        if s == "[]":
            return A([go(a["v"][0], b["v"][0], i + 1)] + a["v"][1:])
        k = "s" if s == "*" else s
        bv = next((v for kk, v in b["v"] if kk == k), None)
        return O([[kk, go(v, bv, i + 1) if kk == k else v] for kk, v in a["v"]])
    return go(a, b, 0)


def many(path, good, bad, at, n, k):
    """the container at a level of the path with n elements like good's, the k-th like bad's"""
    def go(a, b, i):
        s = path[i]
        if i == at:
            x, y = [v["v"][0] if s == "[]" else next(w for key, w in v["v"] if key == "s") for v in (a, b)]
            vs = [y if j == k else x for j in range(n)]
            return A(vs) if s == "[]" else O([["s%d" % j, v] for j, v in enumerate(vs)])
        if s == "[]":
            return A([go(a["v"][0], b["v"][0], i + 1)] + a["v"][1:])
        key = "s" if s == "*" else s
        return O([[x, go(v, next(w for y, w in b["v"] if y == x), i + 1) if x == key else v] for x, v in a["v"]])
    return go(good, bad, 0)


def long_lists(P, rng, share, count):
    """very long lists and maps with one reference out of order, mostly near the end"""
    jobs = [(s, at) for s in P.refs for at, x in enumerate(s["path"]) if x in ("*", "[]")]
    out = []
    for s, at in jobs:
        if rng.random() >= share:
            continue
        for _ in range(count):
            n = rng.choice([40, 70, 70, 101, 130, 257] + [i + 2 for i in words.INTS if 40 <= i <= 400])
            t = P.right(s, True)
            ptr = pointer(t["path"])
            bad = rng.choice([ptr, ptr + "x", ptr + "x", "#/nowhere", "x"])
            d = merged(many(s["path"], fill(s["d"], ptr), fill(s["d"], bad), at, n, rng.choice([n - 1, n - 1, n - 2, rng.randrange(n)])), t["d"])
            if d:
                out.append(verdict(d, "Unified", how(rng)))
    return out


LONG = "k" * 58
SIMILAR = [["a", "A", "b"], ["ab", "a", "b", "abc"], ["0", "1", "2"], ["x", "0", "y"], ["1", "01", "-1"], ["a-b", "a_b", "ab", "a--b"], ["-", "_", "--"], ["test", "tests", "Test", "test-"],
           [LONG + x for x in ("aaa", "aab", "ab", "b", "aa")], [LONG * 2 + x for x in ("a", "b", "", "aa")], [LONG * 6 + x for x in ("a", "b", "")], [x + LONG for x in "abc"], [x + LONG * 5 for x in "ab"], ["e1", "e01", "E1"], ["s", "t", "u"]]
SPECIAL = [["root", "a"], ["a", "root", "b"], ["__root__", "root", "x"], ["ref", "a", "reference"], ["keys", "items", "values"], ["get", "pop", "a"], ["copy", "json", "dict"], ["model_fields", "model_extra", "a"],
           ["a", "__dict__", "__class__"], ["__len__", "b", "c"], ["self", "cls"], ["components", "servers", "channels"], ["info", "a"], ["messages", "b", "schemas"], ["None", "null", "none"], ["true", "True"], ["nan", "inf"]]


def near(rng, key):
    """strings close to a key, none of which is a pointer of its own"""
    i = rng.randrange(len(key) + 1)
    out = [key + " ", " " + key, key + "\n", "\t" + key, key + "\u00a0", "\ufeff" + key, key.swapcase(), key.upper(), key.lower(), key.title(), key[:-1], key[1:], key[:60], key[:128], key[:255], key[:64], key + "x", key[::-1], key.replace("-", "_"), key.replace("_", "-"),
           key[:i] + " " + key[i:], "0", "1", "-1", "00", "-0", "+1", "1.0", "\u0660", "\uff11", '"' + key + '"', "'" + key + "'", "[" + key + "]", "{" + key + "}", "." + key, key + ".", "$" + key, "@" + key, "*", "?", ".*", "^" + key + "$", key + "#", key + "?", "..", ".", key + ";", key + "\x00"]
    return [x for x in out if x and x != key and "/" not in x]


def similar(P, rng, n, pools):
    """maps with several names like each other; references to each of them and to names that are not there"""
    out = []
    for k in P.kinds:
        ts = [t for t in P.of[k] if "t" in t["path"]]
        slots, others = [s for s in P.refs if k in s["kinds"]], [s for s in P.refs if k not in s["kinds"]]
        for _ in range(n if ts else 0):
            t = rng.choice(P.direct[k]) if P.direct[k] and rng.random() < 0.4 else rng.choice(ts)
            names = rng.choice(pools)
            names = rng.sample(names, rng.randrange(2, len(names) + 1))
            at = max(i for i, x in enumerate(t["path"]) if x == "t")
            first = [rng.choice(names) for x in t["path"][:at] if x == "t"]
            d = merged(*[rename(t["d"], t["path"], "t", first + [x]) for x in rng.sample(names[1:], len(names) - 1)]) if rng.random() < 0.4 else merged(*[rename(t["d"], t["path"], "t", first + [x]) for x in rng.sample(names, len(names))])
            if d is None:
                continue
            it = iter(first)
            path = [next(it) if x == "t" and i < at else x for i, x in enumerate(t["path"])]
            keys = [rng.choice(names), names[0]] + rng.sample(near(rng, rng.choice(names)), 3)
            for key in keys:
                s = rng.choice(slots if rng.random() < 0.75 else others)
                x = merged(fill(s["d"], pointer(path[:at] + [key] + path[at + 1:])), d)
                x and out.append(verdict(x, "Unified", how(rng)))
    return out


def siblings(P, rng, n, pools):
    """maps in which an item is a reference to another item whose name is like its own"""
    out = []
    pattern = lambda path: tuple("*" if x in ("s", "t") else x for x in path)
    at = {}
    for t in P.parts:
        if "t" in t["path"]:
            at.setdefault(pattern(t["path"]), t)
    for s in P.refs:
        t = at.get(tuple(s["path"]))
        if s["path"][-1] != "*" or t is None:
            continue
        stars = s["path"].count("*")
        users = [x for x in P.refs if set(x["kinds"]) & set(s["kinds"])]
        for _ in range(n):
            names = rng.sample(rng.choice(pools), 2)
            names += rng.sample(near(rng, names[0]), 1) if rng.random() < 0.2 else []
            up = [rng.choice(["s", names[0]])] * (stars - 1)
            it = iter(up + ["?"])
            path = [next(it) if x == "*" else x for x in s["path"]]
            ptr = lambda k: pointer(path[:-1] + [k])
            holds = [k for k in names if all(ch in KEYCHARS for ch in k)]
            x = rng.random()
            links = {holds[0]: names[1]} if x < 0.6 else {holds[0]: names[-1]} if x < 0.75 else {holds[0]: names[1], holds[1]: names[0]} if x < 0.85 else {holds[0]: holds[0]} if x < 0.93 else {}
            ds = [rename(fill(s["d"], ptr(links[k])), s["path"], "s", up + [k]) if k in links else rename(t["d"], t["path"], "t", up + [k]) for k in rng.sample(holds, len(holds)) if k in links or rng.random() < 0.9]
            d = merged(*ds) if ds else None
            if d and rng.random() < 0.4:
                d = merged(fill(rng.choice(users)["d"], ptr(rng.choice(names))), d)
            d and out.append(verdict(d, "Unified", how(rng)))
    return out


WIDE = {ord(c): 0xfee0 + ord(c) for c in KEYCHARS}


def astray(P, s, rng, n):
    """pointers that differ from a right one in one segment, and pointers through what cannot be addressed"""
    out = []
    add = lambda d: d and out.append(verdict(d, "Unified", how(rng)))
    for _ in range(n):
        t = P.right(s, rng.random() < 0.6)
        i = rng.randrange(len(t["path"]))
        seg = t["path"][i]
        c = near(rng, seg) + [seg.translate(WIDE), seg[:-1] + seg[-1:].translate(WIDE), "".join("%%%02X" % ord(x) for x in seg), "%%%02X" % ord(seg[0]) + seg[1:], seg.upper(), seg.lower(), seg.capitalize(), seg + "s", seg + "?a=b", seg + "#a", seg + ";a", "~0" + seg, seg + "~1", seg + "\u200b",
                              seg.replace("a", "\u0430"), seg.replace("s", "\u017f"), "x-" + seg, seg[0].upper() + seg[1:]]
        for x in rng.sample([x for x in c if x != seg and x], 2):
            add(P.doc(s, pointer(t["path"][:i] + [x] + t["path"][i + 1:]), t))
        x = rng.choice([".", ".", "..", "root", "*", "**", "items", "value", "fields", "x-", "spec", seg, "%2e", "0", "$", "@"])
        add(P.doc(s, pointer(t["path"][:i] + [x] + t["path"][i:]), t))
        if i:
            add(P.doc(s, pointer(t["path"][:i] + rng.choice([["."], ["..", t["path"][i - 1]], [seg, ".."], ["..", ".."]]) + t["path"][i:]), t))
    # the object stands in an extension, in a free-form part or in a list, and is pointed to there
    t = P.right(s, True)
    k = t["kinds"][0]
    v = t["d"]
    for x in t["path"]:
        v = next(w for y, w in v["v"] if y == x)
    for where in rng.sample([["x-t"], ["components", "x-t"], ["components", "x-schemas", "t"], ["info", "x-t"], ["components", "schemas", "t", "properties", "t"],
                             ["components", "schemas", "t", "t"], ["components", "schemas", "t", "schema"], ["components", "messages", "t", "examples", 0, "payload"]], 2):
        d = v
        for x in reversed(where):
            d = A([d]) if x == 0 else O([[x, d]])
        where = [str(x) for x in where]
        add(merged(fill(s["d"], pointer(where)), d))
    lists = [r for r in P.refs if r["path"][-1] == "[]" and k in r["kinds"] and "[]" not in r["path"][:-1]]
    if lists:
        l = rng.choice(lists)
        at = ["s" if x == "*" else x for x in l["path"][:-1]]
        d = merged(fill(s["d"], pointer(at + [rng.choice(["0", "-1", "1", "00", "-", "[0]", "s"])])), inlined(l["d"], v))
        add(d)
    return out


def inlined(d, v):
    """the reference "@" of a place replaced by data"""
    if d["t"] == "o":
        return v if d == O([["$ref", S("@")]]) else O([[k, inlined(x, v)] for k, x in d["v"]])
    return A([inlined(x, v) for x in d["v"]]) if d["t"] == "a" else d


NOWHERE = ["#/nowhere", "#/components", "#/components/nothing/t", "#/info/title/x", "#/components/t", "#/t", "#/asyncapi", "#/components/messages/model_fields",
           "#/components/schemas/root", "#/channels/copy", "#/model_dump", "#/components/model_config", "#/__class__", "#/info/__dict__", "#/components/messages/__len__", "#/channels/keys",
           "#/Components/messages/t", "#/components/message/t", "#/components/messages", "#/channels", "#/servers", "#/operations", "#/components/messages/T", "#/components/messages/tt", "#/info", "#/x-none", "#/components/x-none/t"]


def A01(ctx):
    P = Places(ctx)
    rng = ctx.rng
    ctx.check_model("Cases", INV % "RefPlaceFaithful PartFaithful HolderFaithful", env={"WHAT": ""})
    scripts = []
    add = lambda d: d and scripts.append(verdict(d, "Unified", how(rng)))
    for s in P.refs:
        for _ in range(ctx.pick(1, 6)):
            t = P.right(s)
            ptr = pointer(t["path"])
            add(P.doc(s, ptr, t))                       # exists, right kind
            add(P.doc(s, ptr))                          # same reference, target left out
            for bad in rng.sample([ptr + "x", ptr + "/x", ptr[:-1], pointer(t["path"][:-1]) if len(t["path"]) > 1 else "#/", ptr + "/model_fields",
                                   ptr + "/__class__", pointer(t["path"][:-1] + ["nope"]), pointer(["x"] + t["path"]), pointer([x.upper() for x in t["path"]])], 3):
                add(P.doc(s, bad, t))
        for bad in rng.sample(NOWHERE, ctx.pick(3, len(NOWHERE))):
            add(P.doc(s, bad, P.right(s, True)))
    ctx.scripts(scripts, "places x targets")
    scripts = []
    for s in P.refs:                                     # any position in a list or map
        stars = [i for i, x in enumerate(s["path"]) if x in ("*", "[]")]
        for level in range(len(stars)):
            n = rng.choice([2, 3, 5, 9])
            t = P.right(s, True)
            good = pointer(t["path"])
            for k in {rng.randrange(n), n - 1}:
                refs = [good] * n
                refs[k] = rng.choice([good + "x", "#/nowhere"])
                d = copies(s, rng, refs, level)
                d = d and merged(d, t["d"])
                if d:
                    scripts.append(verdict(d))
            if not ctx.quick or level == len(stars) - 1:
                d = copies(s, rng, [good] * n, level)
                d = d and merged(d, t["d"])
                if d:
                    scripts.append(verdict(d))
    ctx.scripts(scripts, "positions")
    ctx.scripts(long_lists(P, rng, *ctx.pick((1.0, 1), (1.0, 6))), "long lists and maps")
    scripts = []
    for s in P.refs:
        for j in range(ctx.pick(3, 20)):
            t = P.right(s, True)
            ptr = pointer(t["path"])
            kw = {} if rng.random() < 0.6 else {"styles": ("min",), "sizes": (17, 33), "dress": 0} if rng.random() < 0.2 else {"styles": (rng.choice(["min", "ref", "empty", "rich"]),), "dress": rng.choice([0, 0.15, 0.6])}
            kw["safe"] = {t["kinds"][0]: ptr}
            d = merged(crowd(fill(s["d"], ptr if rng.random() < 0.25 else rng.choice([ptr + "x", "#/nowhere", pointer(t["path"][:-1] + ["u"])])), s["path"], rng, **kw), t["d"])
            d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "places among neighbours")
    scripts = []
    for s in P.refs:
        for _ in range(ctx.pick(1, 3)):
            t = P.right(s, True)
            ptr = pointer(t["path"])
            for x in beside(fill(s["d"], ptr if rng.random() < 0.15 else rng.choice([ptr + "x", "#/nowhere"])), s["path"], rng, ctx.pick(2, 9), safe={t["kinds"][0]: ptr}):
                d = merged(x, t["d"])
                d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "places x fields beside them")
    scripts = []
    for s in P.refs:                                     # extensions everywhere on the way
        for _ in range(ctx.pick(1, 10)):
            t = P.right(s, rng.random() < 0.5)
            ptr = pointer(t["path"])
            d = P.doc(s, rng.choice([ptr, ptr + "x", "#/nowhere", "x"]), t)
            d and scripts.append(verdict(decorated(d, rng, rng.choice([0.5, 1])), "Unified", how(rng)))
    ctx.scripts(scripts, "places decorated with extensions")
    ctx.scripts([x for s in P.refs for x in astray(P, s, rng, ctx.pick(5, 40))], "pointers astray")
    ctx.scripts(similar(P, rng, ctx.pick(6, 100), SIMILAR), "similar names")
    ctx.scripts(random_docs(ctx, ctx.pick(200, 4000), 0.5), "random documents, references mostly in order")
    ctx.scripts(random_docs(ctx, ctx.pick(80, 1500), 2.0, collide=0.6), "random documents, several bad references")


FORMATS = ["application/vnd.aai.asyncapi;version=3.0.0", "application/vnd.aai.asyncapi+json;version=3.0.0", "application/vnd.aai.asyncapi+yaml;version=3.0.0", "application/schema+json;version=draft-07", "application/schema+yaml;version=draft-07",
           "application/vnd.apache.avro;version=1.9.0", "application/vnd.apache.avro+json;version=1.9.0", "application/vnd.oai.openapi;version=3.0.0", "application/raml+yaml;version=1.0", "application/vnd.google.protobuf;version=3", "", "text/plain", "application/json", "custom"]


def A02(ctx):
    P = Places(ctx)
    rng = ctx.rng
    ctx.check_model("Cases", INV % "RefPlaceFaithful PartFaithful HolderFaithful", env={"WHAT": ""})
    scripts = []

    def add(s, t):
        d = P.doc(s, pointer(t["path"]), t)
        if d:
            scripts.append(verdict(d, "Unified", how(rng)))
    for s in P.refs:
        for k in P.kinds:                                # every kind, in components and elsewhere
            add(s, P.part(k, True))
            if k in s["kinds"]:
                for t in (P.of[k] if not ctx.quick else rng.sample(P.of[k], min(3, len(P.of[k])))):
                    add(s, t)
            elif not ctx.quick:
                for t in rng.sample(P.of[k], min(4, len(P.of[k]))):
                    add(s, t)
        for _ in range(ctx.pick(3, 40)):                 # parts of any other kind
            add(s, rng.choice(P.parts))
    ctx.scripts(scripts, "places x kinds")
    scripts = []
    for t in P.parts:                                    # every part of a document as a target
        for k in t["kinds"]:
            ss = [s for s in P.refs if k in s["kinds"]]
            for s in rng.sample(ss, min(len(ss), ctx.pick(1, 12))):
                add(s, t)
        for s in rng.sample(P.refs, ctx.pick(1, 10)):
            add(s, t)
    ctx.scripts(scripts, "parts as targets")
    scripts = []
    for s in P.refs:                                     # what holds objects of the kind expected is not of that kind
        hs = [h for h in P.holders if set(h["of"]) & set(s["kinds"])]
        for h in rng.sample(hs, min(len(hs), ctx.pick(4, 40))):
            for crowded in {False, rng.random() < 0.5}:
                hd, at = h["d"], h["path"]
                if crowded:
                    at = ["s" if y == "t" else y for y in at]
                    stars = ["*" if y == "t" else y for y in h["path"]]
                    hd = crowd(rename(hd, stars, "t", ["s"] * stars.count("*")), stars, rng)
                d = merged(fill(s["d"], pointer(at)), hd)
                d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "places x holders of the kind")
    scripts = []
    for s in P.refs:                                     # what the target holds says nothing about its kind
        for k in rng.sample(P.kinds, min(len(P.kinds), ctx.pick(6, 21))) + s["kinds"]:
            t = P.part(k, True)
            g = Gen(rng, opt=rng.choice([0.2, 0.5, 0.9]), ext=0.3, depth=3, collide=0.1, reflike=0.1, safe={})
            d = merged(fill(s["d"], pointer(t["path"])), replaced(t["d"], t["path"], g.obj(k, 2)))
            d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "places x rich targets")
    scripts = []
    for s in P.refs:
        if "Schema" in s["kinds"] or rng.random() < ctx.pick(0.1, 1):
            for f in FORMATS if not ctx.quick else rng.sample(FORMATS, 5):
                t = P.part("MultiFormatSchema", True)
                m = O([["schemaFormat", S(f)], ["schema", rng.choice([S("x"), O([["type", S("object")]]), O([]), N])]])
                d = merged(fill(s["d"], pointer(t["path"])), replaced(t["d"], t["path"], m))
                d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "multi-format schemas of every format")
    scripts = []
    for s in P.refs:
        for _ in range(ctx.pick(1, 4)):
            t, g = P.part(rng.choice([k for k in P.kinds if k not in s["kinds"]]), True), P.right(s, True)
            for x in beside(fill(s["d"], pointer(t["path"])), s["path"], rng, ctx.pick(1, 9), safe={g["kinds"][0]: pointer(g["path"])}):
                d = merged(x, t["d"], g["d"])
                d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "places x fields beside them")
    ctx.scripts(random_docs(ctx, ctx.pick(60, 1500), 1.0), "random documents")


def A03(ctx):
    rng = ctx.rng
    P = Places(ctx)
    scripts = []
    for colls, alike in [("mes_mes_sch", 0), ("mes_cha_mes", 1), ("root_ser", 1)] if ctx.quick else \
            [("mes_mes_mes_mes", 0), ("mes_sch_mes_cha", 1), ("tag_tag_ext_tag", 0), ("ser_par_ser_par", 1), ("root_cha", 1), ("root_ser", 0), ("root_ope", 1), ("mes_mes_sch", 1)]:
        cfg = "SPECIFICATION Spec\nINVARIANTS Agree Whole Short Emit\nPROPERTY Terminates\nCONSTANTS Colls <- C_%s\n LikeNames = %s\n" % (colls, "TRUE" if alike else "FALSE")
        docs = ctx.emitted("RefGraph", cfg)
        for d in docs:
            scripts.append(verdict(d, "Unified", how(rng)))
    ctx.notes.append("%d reference graphs" % len(scripts))
    ctx.scripts(scripts, "all small graphs of references")
    # longer chains, at the places TLC enumerates
    scripts = []
    for s in (rng.sample(P.refs, 120) if ctx.quick else P.refs):
        for n in rng.sample([1, 2, 3, 7, 20], 2):
            scripts.append(verdict(chain(P, s, n, rng), "Unified"))
    for n in ctx.pick([300, 1005], [300, 500, 980, 999, 1001, 1100]):
        for end in ("right", "cycle") if ctx.quick else ("right", "wrong", "missing", "external", "cycle", "tail", "unsupported"):
            s = next(x for x in P.refs if x["path"] == ["components", "messages", "*"])
            scripts.append(verdict(chain(P, s, n, rng, end), "Unified"))
    ctx.scripts([s for s in scripts if s[0]["arg"]], "chains")
    ctx.scripts([verdict(d, "Unified", how(rng)) for s in P.refs for _ in range(ctx.pick(2, 20)) for d in [winding(P, s, rng)] if d], "chains across places")
    # many chains and cycles in one document, random graphs
    scripts = []
    for _ in range(ctx.pick(150, 3000)):
        scripts.append(verdict(graph(P, rng), "Unified", how(rng)))
    ctx.scripts([s for s in scripts if s[0]["arg"]], "random graphs")


COLL = {"Message": "messages", "Schema": "schemas", "Tag": "tags", "Channel": "channels", "Server": "servers", "Parameter": "parameters", "Operation": "operations",
        "SecurityScheme": "securitySchemes", "ServerVariable": "serverVariables", "CorrelationID": "correlationIds", "OperationReply": "replies",
        "OperationReplyAddress": "replyAddresses", "ExternalDocumentation": "externalDocs", "OperationTrait": "operationTraits", "MessageTrait": "messageTraits",
        "ServerBindingsObject": "serverBindings", "ChannelBindingsObject": "channelBindings", "OperationBindingsObject": "operationBindings", "MessageBindingsObject": "messageBindings"}


def comp(coll, key, d):
    return O([["info", O([["title", S("t")], ["version", S("1")]])], ["components", O([[coll, O([[key, d]])]])]])


def ref(s):
    return O([["$ref", S(s)]])


def chain(P, s, n, rng, end=None):
    """place s -> n links in the components collection of its kind -> something"""
    kind = rng.choice([k for k in s["kinds"] if k in COLL] or ["Message"])
    coll = COLL[kind]
    end = end or rng.choice(["right", "right", "wrong", "missing", "external", "cycle", "tail", "unsupported"])
    key = lambda i: "n%d" % i
    links = [[key(i), ref("#/components/%s/%s" % (coll, key(i + 1)))] for i in range(n)]
    last = {"right": next(x for x in P.parts if x["path"] == ["components", coll, "t"])["d"] if any(x["path"] == ["components", coll, "t"] for x in P.parts) else None}
    doc = merged(fill(s["d"], "#/components/%s/n0" % coll), comp(coll, "n0", links[0][1]))
    if end == "right":
        if last["right"] is None:
            return None
        d = last["right"]
        item = [v for k, v in d["v"] if k == "components"][0]["v"][0][1]["v"][0][1]
        tail = item
    elif end == "wrong":
        other = rng.choice([k for k in COLL if k != kind])
        x = next(x for x in P.parts if x["path"] == ["components", COLL[other], "t"])
        doc = doc and merged(doc, x["d"])
        tail = ref("#/components/%s/t" % COLL[other])
    elif end == "missing":
        tail = ref("#/components/%s/missing" % coll)
    elif end == "external":
        tail = ref("https://example.com/x.json#/end")
    elif end == "unsupported":
        tail = ref(rng.choice(["other.yaml#/x", "", "#", "n0"]))
    elif end == "cycle":
        tail = ref("#/components/%s/n0" % coll)
    else:
        tail = ref("#/components/%s/n%d" % (coll, rng.randrange(n)))
    more = O([["components", O([[coll, O(links[1:] + [[key(n), tail]])]])]])
    return doc and merged(doc, more)


def winding(P, s, rng):
    """place s -> references at other places where its kind may stand, with the same keys or similar ones -> something"""
    kind = rng.choice(s["kinds"])
    hops = [p for p in P.of[kind] if p["path"][-1] == "t"]
    hops = rng.sample(hops, min(len(hops), rng.choice([1, 2, 2, 3, 4])))
    if not hops:
        return None
    pool = rng.choice([["t"], ["t"], ["a", "A"], ["a", "b", "ab"], ["x", "x-", "x_"], rng.sample(COLLIDING, 2)])
    names = [[rng.choice(pool) for x in p["path"] if x == "t"] for p in hops]
    paths = []
    for p, ns in zip(hops, names):
        it = iter(ns)
        paths.append([next(it) if x == "t" else x for x in p["path"]])
    end = rng.random()
    d = fill(s["d"], pointer(paths[0]))
    for i, (p, ns) in enumerate(zip(hops, names)):
        x = rename(p["d"], p["path"], "t", ns)
        last = i == len(hops) - 1
        if not last or end > 0.6:
            to = paths[i + 1] if not last else rng.choice(paths) if end > 0.8 else paths[i] + ["x"]
            x = replaced(x, paths[i], ref("https://example.com/" if last and end > 0.93 else pointer(to)))
        d = d and merged(d, x)
    return d


def replaced(d, path, v):
    """data with another value at a path of keys"""
    if not path:
        return v
    return O([[k, replaced(x, path[1:], v) if k == path[0] else x] for k, x in d["v"]])


def graph(P, rng):
    """a random graph of references among components and other places"""
    colls = rng.sample(sorted(COLL.values()), rng.choice([1, 2, 3]))
    nodes = [(c, "n%d" % i) for c in colls for i in range(rng.choice([2, 3, 5, 9]))]
    items = {}
    objs = {x["path"][1]: x for x in P.parts if len(x["path"]) == 3 and x["path"][0] == "components" and x["path"][2] == "t"}
    bad = rng.random() < 0.6
    order = nodes[:]
    rng.shuffle(order)
    for i, (c, k) in enumerate(order):
        x = rng.random()
        same = [n for n in order[:i] if n[0] == c]
        if x < 0.65 and same:
            items[c, k] = ref("#/components/%s/%s" % rng.choice(same))
        elif x < 0.7:
            items[c, k] = ref("http://example.com/%s" % k)
        elif x < 0.74 and bad:
            items[c, k] = ref(rng.choice(["#/components/%s/%s" % rng.choice(nodes), "#/components/%s/zz" % c, "zz"]))
        else:
            d = objs[c]["d"]
            items[c, k] = [v for kk, v in d["v"] if kk == "components"][0]["v"][0][1]["v"][0][1]
    comps = O([[c, O([[k, items[c, k]] for cc, k in nodes if cc == c])] for c in colls])
    doc = O([["info", O([["title", S("t")], ["version", S("1")]])], ["components", comps]])
    for s in rng.sample(P.refs, rng.choice([0, 1, 3])):
        kinds = [COLL.get(k) for k in s["kinds"]]
        good = [n for n in nodes if n[0] in kinds]
        if good:
            d = merged(doc, fill(s["d"], "#/components/%s/%s" % rng.choice(good)))
            doc = d or doc
    return doc


EXTERNAL = ["http://example.com", "https://example.com/", "https://example.com/a.json#/components/messages/t", "http://", "https://", "http://localhost:80/x", "https://x/ with space", "https://\u00fc.example/", "http://example.com/#"]
LONGURLS = ["https://example.com/" + "p" * n + t for n in (100, 120, 180, 235, 300, 490, 1000, 2100, 5000) for t in ("", ".json#/components/messages/t")]
ODDURLS = ["https://example.com/%s", "https://example.com/{}", "https://example.com/%(x)s", "https://example.com/{0}/{x}", "https://example.com/a%20b", "https://example.com/\\", "https://example.com/\n", "https://example.com/'\"", "https://u:p@example.com/", "https://[::1]/x",
           "https://example.com/?a=b&c=d;e", "https://example.com/../x", "https://example.com/\u4e2d\U0001f600", "http://#/components/messages/t", "https://example.com/https://example.com/", "http://EXAMPLE.com", "https://e", "https:///x", "http://\t", "https://example.com/ "]
UNSUPPORTED = ["", "#", "other.yaml", "./other.yaml#/a", "/components/messages/t", "components/messages/t", "ftp://example.com/x", "file:///etc/passwd", "HTTP://example.com", "Https://example.com", "http:/example.com",
               "https:example.com", " https://example.com", "urn:x:y", "ws://example.com", "mailto:a@b.c", "//example.com/x", "httpx://example.com", "www.example.com", "http", "https", "x#/components/messages/t", "\\#/a", "$ref", "{x}", "?", "null", "shttp://x", "example.com#/a"]


def A04(ctx):
    P = Places(ctx)
    rng = ctx.rng
    scripts = []
    for s in P.refs:
        for r in (EXTERNAL if not ctx.quick else rng.sample(EXTERNAL, 4)):
            scripts.append(verdict(P.doc(s, r, name=rng.choice(["$ref", "ref"])), "Unified", how(rng)))
        for r in rng.sample(LONGURLS, ctx.pick(1, 6)) + rng.sample(ODDURLS, ctx.pick(2, 12)):
            scripts.append(verdict(P.doc(s, r), "Unified", how(rng)))
        for r in (UNSUPPORTED if not ctx.quick else rng.sample(UNSUPPORTED, 7)):
            scripts.append(verdict(P.doc(s, r, P.right(s, True)) or P.doc(s, r), "Unified", how(rng)))
        # chains that leave the document
        n = rng.choice([1, 2, 5])
        d = chain(P, s, n, rng, "external") if any(k in COLL for k in s["kinds"]) else None
        if d:
            scripts.append(verdict(d))
    ctx.scripts(scripts, "places x spellings")
    # several external references in one document, all to be named
    scripts = []
    for _ in range(ctx.pick(200, 3000)):
        d = None
        n = rng.choice([2, 3, 6])
        for i, s in enumerate(rng.sample(P.refs, n)):
            x = fill(s["d"], "https://example.com/%d.json#/x%d" % (i, rng.randrange(3)) if rng.random() < 0.6 else "https://example.com/" + "p" * 300 + "%d" % i if rng.random() < 0.3 else rng.choice(EXTERNAL + ODDURLS))
            d = x if d is None else merged(d, x) or d
        scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "several external references")
    # the same document checked again and again: every run warns
    scripts = []
    for _ in range(ctx.pick(60, 600)):
        s = rng.choice(P.refs)
        d = fill(s["d"], rng.choice(EXTERNAL))
        scripts.append([{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": [], "how": "data"}] +
                       [{"op": "check", "id": 1, "p": "Unified", "inst": i} for i in (0, 0, 1)])
    ctx.scripts(scripts, "repeated checks")


NAMES = sorted(set(COLLIDING))


def A05(ctx):
    P = Places(ctx)
    rng = ctx.rng
    scripts = []
    steps = sorted({x for s in P.refs for x in s["path"] if x not in ("*", "[]")})
    names = sorted(set(NAMES) | {x for x in steps if all(ch in KEYCHARS for ch in x)})
    dicts = ["a.b", "x[0]", "*", "a/b", "", " ", "#", "server.variables", "servers.*.variables", "~1", "0"]
    for s in P.refs:
        stars = [i for i, x in enumerate(s["path"]) if x == "*"]
        if not stars:
            continue
        t = P.right(s, True)
        good = pointer(t["path"])
        wrong = P.part(rng.choice([k for k in P.kinds if k not in s["kinds"]]), True)
        near = [x for x in s["path"] if x not in ("*", "[]")]
        for j in range(ctx.pick(4, 40)):
            ns = [rng.choice(near) if rng.random() < 0.4 else rng.choice(names) for _ in stars]
            d = merged(rename(fill(s["d"], good), s["path"], "s", ns), t["d"])
            if d:
                scripts.append(verdict(d))
            if j % 2 == 0:
                d = merged(rename(fill(s["d"], pointer(wrong["path"])), s["path"], "s", ns), wrong["d"])
                if d:
                    scripts.append(verdict(d))
        for i, n in itertools.product(range(len(stars)), ctx.pick(rng.sample(names, 6), names)):
            ns = ["s"] * len(stars)
            ns[i] = n
            d = merged(rename(fill(s["d"], good), s["path"], "s", ns), t["d"])
            if d:
                scripts.append(verdict(d))
        if "variables" in s["path"] or s["path"][-1] == "*":
            for n in dicts:
                d = rename(fill(s["d"], good), s["path"], "s", ["s"] * (len(stars) - 1) + [n])
                d = merged(d, t["d"])
                if d:
                    scripts.append(verdict(d))
    ctx.scripts(scripts, "renamed holders")
    scripts = []
    for k in P.kinds:
        for n in (names if not ctx.quick else rng.sample(names, 45)):
            t = P.part(k, rng.random() < 0.7)
            marks = sum(1 for x in t["path"] if x == "t")
            if not marks:
                continue
            ns = [n if rng.random() < 0.8 else rng.choice(names) for _ in range(marks)]
            it = iter(ns)
            path = [next(it) if x == "t" else x for x in t["path"]]
            d = rename(t["d"], t["path"], "t", ns)
            slots = [s for s in P.refs if k in s["kinds"]]
            others = [s for s in P.refs if k not in s["kinds"]]
            for s in (rng.choice(slots), rng.choice(others)):
                x = merged(fill(s["d"], pointer(path)), d)
                if x:
                    scripts.append(verdict(x))
    ctx.scripts(scripts, "renamed targets")
    ctx.scripts(similar(P, rng, ctx.pick(12, 150), SIMILAR + SPECIAL + [rng.sample(names, 3) for _ in range(30)]), "similar names in one map")
    ctx.scripts(siblings(P, rng, ctx.pick(20, 300), SIMILAR + [rng.sample(names, 2) for _ in range(10)]), "siblings of similar names referring to each other")
    ctx.scripts(random_docs(ctx, ctx.pick(150, 3000), 0.4, collide=0.95), "random documents with colliding names")


def A06(ctx):
    P = Places(ctx)
    rng = ctx.rng
    scripts = []
    # two places, the same reference string, right for one and wrong for the other
    for s in P.refs:
        for _ in range(ctx.pick(4, 30)):
            t = P.right(s, rng.random() < 0.7)
            other = rng.choice(P.refs)
            for a, b in ((s, other), (other, s)):
                d = merged(fill(a["d"], pointer(t["path"])), fill(b["d"], pointer(t["path"])), t["d"])
                if d:
                    scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "pairs of places with one reference string")
    # two places that look alike from their ends, each with what is right there or at the other
    tails = {}
    for s in P.refs:
        names = [x for x in s["path"] if x not in ("*", "[]")]
        for k in (names[-1], tuple(s["path"][-2:]), tuple(names[-2:])):
            tails.setdefault(k, []).append(s)
    scripts = []
    for s in P.refs:
        names = [x for x in s["path"] if x not in ("*", "[]")]
        for k in (names[-1], tuple(s["path"][-2:]), tuple(names[-2:])):
            pool = [o for o in tails[k] if o["kinds"] != s["kinds"]] or tails[k]
            for o in rng.sample(pool, min(len(pool), ctx.pick(1, 6))):
                t, u = P.right(s, True), P.right(o, True)
                for a, b in ((t, u), (t, t), (u, u)):
                    ds = [fill(s["d"], pointer(a["path"])), fill(o["d"], pointer(b["path"]))]
                    d = merged(*rng.sample(ds, 2), a["d"], b["d"])
                    d and scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "pairs of similar places")
    # conjunction: many references, one of them possibly bad
    scripts = []
    for _ in range(ctx.pick(250, 4000)):
        n = rng.choice([2, 4, 8])
        ss = rng.sample(P.refs, n)
        k = rng.randrange(n) if rng.random() < 0.6 else -1
        d = None
        for i, s in enumerate(ss):
            t = P.right(s, rng.random() < 0.6)
            r = pointer(t["path"]) if i != k else rng.choice([pointer(P.part(rng.choice(P.kinds), True)["path"]), pointer(t["path"]) + "x", "#", "zz"])
            x = merged(fill(s["d"], r), t["d"])
            if x:
                d = x if d is None else (merged(d, x) or d)
        if d:
            scripts.append(verdict(d, "Unified", how(rng)))
    ctx.scripts(scripts, "conjunctions")
    # histories of validations, in one process, with one or several validator instances
    scripts = []
    for _ in range(ctx.pick(60, 1000)):
        script = []
        n = rng.choice([3, 5, 8])
        s = rng.choice(P.refs)
        t = P.right(s, True)
        w = P.part(rng.choice(P.kinds), True)
        ptr = pointer(t["path"])
        pool = [P.doc(s, ptr, t), P.doc(s, ptr), P.doc(s, ptr, w), P.doc(s, pointer(w["path"]), w), P.doc(s, pointer(w["path"]), t, w), P.doc(rng.choice(P.refs), ptr, t), fill(s["d"], "https://example.com/")]
        pool = [x for x in pool if x]
        for i in range(n):
            script.append({"op": "new", "id": i + 1, "c": "AsyncAPI3", "arg": rng.choice(pool), "procs": [], "how": "data"})
            script.append({"op": "check", "id": i + 1, "p": "Unified", "inst": rng.choice([0, 0, 1])})
            if rng.random() < 0.5:
                script.append({"op": "check", "id": rng.randrange(1, i + 2), "p": "Unified", "inst": rng.choice([0, 0, 1])})
            if rng.random() < 0.3:
                script += verdict(rng.choice(pool))
        scripts.append(script)
    ctx.scripts(scripts, "histories of validations")
    # documents that change between validations
    ctx.scripts([mutating(P, rng) for _ in range(ctx.pick(150, 2500))], "documents edited between validations")
    # one object standing at two places of the document
    ctx.scripts([x for x in (shared_kinds(P, rng, s) for s in P.refs for _ in range(ctx.pick(2, 12))) if x], "one reference object at places of different kinds")
    ctx.scripts([x for x in (shared(P, rng) for _ in range(ctx.pick(250, 4000))) if x], "shared objects")
    ctx.scripts(random_docs(ctx, ctx.pick(80, 2000), 1.0), "random documents")


def mutating(P, rng):
    """targets appear, disappear and change kind between checks by the same validator"""
    kind = rng.choice([k for k in P.kinds if P.direct[k]])
    slots = [s for s in P.refs if kind in s["kinds"]]
    s = rng.choice(slots)
    t = rng.choice(P.direct[kind])
    coll = t["path"][1]
    item = [v for k, v in t["d"]["v"] if k == "components"][0]["v"][0][1]["v"][0][1]
    keep = comp(coll, "keep", item)
    d = merged(fill(s["d"], "#/components/%s/t" % coll), keep)
    script = [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": [], "how": "data"}]
    have = False
    for _ in range(rng.choice([3, 6])):
        script.append({"op": "check", "id": 1, "p": "Unified", "inst": rng.choice([0, 0, 0, 1])})
        x = rng.random()
        path = ["components", coll]
        if have and x < 0.5:
            script.append({"op": "del", "id": 1, "path": path, "key": "t"})
            have = False
        else:
            v = rng.choice([item, ref("#/components/%s/keep" % coll), ref("#/components/%s/t" % coll), ref("https://example.com/")])
            script.append({"op": "put", "id": 1, "path": path, "key": "t", "arg": v})
            have = True
    script.append({"op": "check", "id": 1, "p": "Unified", "inst": 0})
    return script


def shared(P, rng):
    """the object holding the reference is put, as the same Python object, at a second place of its kind"""
    s = rng.choice(P.refs)
    t = P.right(s, True)
    bad = rng.random() < 0.5
    r = pointer(t["path"]) + ("x" if bad else "")
    d = merged(fill(s["d"], r), t["d"])
    if d is None:
        return None
    # holder: the map item above the reference, or the reference itself
    path, stars = [], [i for i, x in enumerate(s["path"]) if x in ("*", "[]")]
    if not stars:
        return None
    at = rng.choice(stars)
    path = ["s" if x == "*" else 1 if x == "[]" else x for x in s["path"][:at + 1]]
    to = path[:-1] + (["s2"] if path[-1] == "s" else [2])
    return [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": [], "how": "data"},
            {"op": "check", "id": 1, "p": "Unified"},
            {"op": "adopt", "id": 1, "edit": {"kind": "share", "from": path, "to": to}},
            {"op": "check", "id": 1, "p": "Unified"},
            {"op": "adopt", "id": 1, "edit": {"kind": "value", "arg": ref("#/nowhere" if rng.random() < 0.5 else pointer(t["path"])), "to": ["info", "external_docs"]}} if rng.random() < 0.3 else {"op": "check", "id": 1, "p": "Unified", "inst": 1},
            {"op": "check", "id": 1, "p": "Unified"}]


def shared_kinds(P, rng, s):
    """one reference object at two places of different kinds"""
    t = P.right(s, True)
    o = rng.choice([x for x in P.refs if x["kinds"] != s["kinds"]])
    u = P.right(o, True)
    if rng.random() < 0.5:
        t, u = u, t                   # in order at the one place or the other
    d = merged(fill(s["d"], pointer(P.right(s, True)["path"]) if rng.random() < 0.1 else pointer(t["path"])), fill(o["d"], pointer(u["path"])), t["d"], u["d"])
    if d is None:
        return None
    where = lambda x: ["s" if y == "*" else 1 if y == "[]" else y for y in x["path"]]
    if where(o)[:len(where(s))] == where(s) or where(s)[:len(where(o))] == where(o):
        return None                   # it would contain itself
    return [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": [], "how": "data"},
            {"op": "check", "id": 1, "p": "Unified"},
            {"op": "adopt", "id": 1, "edit": {"kind": "share", "from": where(s), "to": where(o)}},
            {"op": "check", "id": 1, "p": "Unified"}, {"op": "check", "id": 1, "p": "Unified", "inst": 1}]


EDITS = list("/#.-_aA0~%?&=+*:$ \n\t\u00e9") + ["//", "/.", "/..", "%2F", "~1", "s", "\u0301", "\u200b"]


def edits_of(rng, s, n):
    """strings close to a string"""
    i = rng.randrange(len(s) + 1)
    all_ = [s + x for x in EDITS] + [x + s for x in EDITS] + [s[:i] + x + s[i:] for x in EDITS] + [s[:-1], s[1:], s[:i] + s[i + 1:], s.swapcase(), s.upper(), s.lower(), s + s, s.replace("/", "//"), s.replace("#", ""),
            s.replace("-", "_"), s.replace("_", "-"), s.replace("a", "%61"), s.replace("://", ":"), s.replace("https", "http"), s.replace("/", "\\"), s[::-1], s.strip("/#"), s.strip("#"), s.split("#")[0], s.split("/")[-1]]
    return rng.sample(all_, n)


def A08(ctx):
    P = Places(ctx)
    rng = ctx.rng
    ctors = ctx.cases("refs")["ctors"]
    items = {}
    for p in P.parts:
        if p["path"][-1] == "t" and (len(p["path"]) == 2 or len(p["path"]) == 3 and p["path"][0] == "components"):
            d = p["d"]
            for x in p["path"]:
                d = next(v for k, v in d["v"] if k == x)
            items.setdefault(tuple(p["path"][:-1]), (d, p["kinds"][0]))
    names = sorted(set(COLLIDING) | {"a", "A", "0", "-", "_", "a-b_c", "k" * 200, "-" * 3, "servers", "components"} | set(KEYCHARS))
    assert len(ctors) == 22

    def place(path, name):
        d = O([[name, items[path][0]]])
        for x in reversed(path):
            d = O([[x, d]])
        return merged(O([["info", O([["title", S("t")], ["version", S("1")]])]]), d)
    scripts = []
    for ctor, c in sorted(ctors.items()):
        path = tuple(c["path"])
        kind = items[path][1]
        slots = [s for s in P.refs if kind in s["kinds"] or (kind == "MultiFormatSchema" and "Schema" in s["kinds"])]
        for name in (names if not ctx.quick else rng.sample(names, 30)):
            others = [p for p in items if p != path]
            some = rng.sample(others, rng.choice([1, 3, len(others)]))
            for where in ([path], some, [path] + some, []):
                s = rng.choice(slots)
                d = merged(put_handle(s["d"], 1), *[place(p, name) for p in where])
                if d is None:
                    continue
                scripts.append([{"op": "ctor", "id": 1, "ctor": ctor, "name": name},
                                {"op": "new", "id": 2, "c": "AsyncAPI3", "arg": d, "procs": ["Unified"], "how": "data"},
                                {"op": "dump", "id": 1, "path": []}])
            if name != name.swapcase():     # names that differ in case only
                s = rng.choice(slots)
                d = merged(put_handle(s["d"], 1), place(path, name.swapcase()))
                if d:
                    scripts.append([{"op": "ctor", "id": 1, "ctor": ctor, "name": name}, {"op": "new", "id": 2, "c": "AsyncAPI3", "arg": d, "procs": ["Unified"], "how": "data"}])
    ctx.scripts(scripts, "constructors x names x documents")
    scripts = []
    cs = sorted(ctors)
    for i in range(ctx.pick(400, 4000)):
        a = (rng.choice(cs), rng.choice(names))
        x = rng.random()
        b = a if x < 0.3 else (rng.choice(cs), a[1]) if x < 0.6 else (a[0], rng.choice(names)) if x < 0.8 else (a[0], a[1].swapcase())
        script = [{"op": "ctor", "id": 1, "ctor": a[0], "name": a[1]}, {"op": "ctor", "id": 2, "ctor": b[0], "name": b[1]}, {"op": "alike", "a": 1, "b": 2}]
        if rng.random() < 0.5:     # the same string written by hand, an edited reference
            r = rng.choice(["#/servers/" + a[1], "#/components/schemas/" + a[1], "", "#", "https://example.com/"])
            script += [{"op": "new", "id": 3, "c": "Reference", "arg": O([["$ref", S(r)]]), "how": "data", "procs": []}, {"op": "alike", "a": 1, "b": 3},
                       {"op": "set", "id": 2, "path": [], "name": "ref", "arg": S(r)}, {"op": "alike", "a": 2, "b": 3}, {"op": "alike", "a": 1, "b": 2}]
        scripts.append(script)
    ctx.scripts(scripts, "equality")
    # every short name, every constructor
    short = ["".join(x) for n in (1, 2, 3) for x in itertools.product("aA0-_", repeat=n)]
    names2 = sorted(set(short) | set(names) | {"".join(rng.choice(KEYCHARS if rng.random() < 0.3 else "aB3-_") for _ in range(rng.choice([4, 5, 8, 13]))) for _ in range(ctx.pick(150, 3000))})
    ctx.scripts([[{"op": "ctor", "id": i, "ctor": c, "name": n} for i, n in enumerate(names2[j:j + 25])] for c in cs for j in range(0, len(names2), 25)], "constructors x short names")
    # references whose strings differ a little
    bases = ["#/components/schemas/a", "#/servers/main", "https://example.com/a.json#/b", "other.yaml#/x/y", "", "#", "#/", "a", "/a/", "#/components/messages/User_Event-1", "http://example.com", "#/components/schemas/\u00e9"]
    scripts = []
    for b in bases:
        for _ in range(ctx.pick(4, 60)):
            script = [{"op": "new", "id": 1, "c": "Reference", "arg": ref(b), "how": "data", "procs": []}]
            for x in edits_of(rng, b, 8):
                script += [{"op": "new", "id": 2, "c": "Reference", "arg": ref(x), "how": rng.choice(["data", "json"]), "procs": []}, {"op": "alike", "a": 1, "b": 2}, {"op": "alike", "a": 2, "b": 1}]
            scripts.append(script)
    ctx.scripts(scripts, "equality of similar strings")


def A07(ctx):
    rng = ctx.rng
    cfg = "INIT Init\nNEXT Next\nCONSTRAINT %s\nVIEW Hide\nCONSTANTS Procs <- P_%s\n"
    props = "INVARIANTS Repairable\nPROPERTY Consistent\n"
    for p in ctx.pick(["All"], ["All", "Unified", "Tags", "Docs", "None"]):
        ctx.check_model("DocMachine", cfg % ("Bound", p) + props, workers=3, timeout=800, long=True)
    a = ctx.cases("actions", "DocMachine", cfg % ("Stop", "None"))
    values, fields = a["values"], ["info", "servers", "channels", "operations", "components"]
    setter = lambda n, v: {"op": "set", "id": 1, "path": [], "name": n, "arg": v}
    docs = []
    for combo in itertools.product(range(3), repeat=5):
        d = O([[f, values[f][k]] for f, k in zip(fields, combo) if values[f][k] != N])
        docs.append((combo, d))
    edits = [{"op": k, "id": 1, "path": p, "key": key, **({"arg": v} if k == "put" else {})} for k, p, key, v in a["edits"]]

    def there(e, combo):
        v = values[e["path"][0]][combo[fields.index(e["path"][0])]]
        if v == N:
            return False
        for s in e["path"][1:] + [e["key"]]:
            v = next((x for k, x in v["v"] if k == s), None)
            if v is None:
                return False
        return True

    def repair(combo):
        return [setter(f, values[f][0]) for f in rng.sample(fields, 5)]
    proclists = [["Unified"], ["Unified"], ["Unified"], ["Tags"], ["Docs"], ["Tags", "Docs", "Unified"], ["Docs", "Unified"], ["Unified", "Unified"]]
    new = lambda d, procs: {"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": procs, "how": rng.choice(["data", "data", "kw"])}
    # every state x action (quick: a sample), then a repair
    ctx.scripts([[new(d, procs)] for combo, d in docs for procs in proclists[2:]], "every state")
    scripts = []
    live = [x for x in docs if real.call(real.build, "AsyncAPI3", dec(x[1]), "data", ["Unified"])[0] == "ok"]   # only steers the choice
    for combo, d in docs + live * ctx.pick(3, 8):
        for n, v in (a["sets"] if not ctx.quick else rng.sample(a["sets"], 5)):
            procs = rng.choice(proclists)
            script = [new(d, procs), setter(n, v), {"op": "check", "id": 1, "p": procs[0]}]
            if rng.random() < 0.3:
                script += repair(combo) + [setter(n, v)]
            scripts.append(script)
        for e in edits:
            if there(e, combo):
                for n, v in rng.sample(a["sets"], ctx.pick(2, 12)):
                    scripts.append([new(d, rng.choice(proclists)), e, setter(n, v), {"op": "dump", "id": 1, "path": []}] + (repair(combo) if rng.random() < 0.3 else []))
    ctx.scripts(scripts, "every state x action")
    # the document made inconsistent in place: no assignment at all may then be accepted but a repair
    scripts = []
    more = [["x-a", I(1)], ["x-b", N], ["x-a", I(2)], ["id", N], ["id", S("urn:x:y")], ["id", S("urn:x:z")], ["default_content_type", N], ["default_content_type", S("a/b")], ["asyncapi", S("3.0.0")], ["asyncapi", S("3.1.0")]]
    for combo, d in live * ctx.pick(1, 3):
        for e in edits:
            if there(e, combo):
                d2 = O(d["v"] + [["x-a", I(1)], ["id", S("urn:x:y")], ["defaultContentType", S("a/b")]][:rng.choice([0, 3, 3])])
                same = [[f, values[f][i]] for f, i in zip(fields, combo)]
                for procs in rng.sample(proclists[2:], ctx.pick(2, 6)):
                    scripts.append([new(d2, procs), e] + [x for n, v in rng.sample(more + rng.sample(same, 2), ctx.pick(6, 12)) for x in (setter(n, v), {"op": "dump", "id": 1, "path": []})] + [{"op": "check", "id": 1, "p": procs[0]}] + (repair(combo) if rng.random() < 0.5 else []))
    ctx.scripts(scripts, "edits in place, then any assignment")
    # long histories
    scripts = []
    for _ in range(ctx.pick(150, 2500)):
        combo, d = rng.choice([x for x in docs if sum(x[0]) <= rng.choice([0, 3, 10])])
        script = [new(O([["info", values["info"][0]]]), rng.choice(proclists))]
        for _ in range(rng.choice([6, 12, 25])):
            x = rng.random()
            if x < 0.7:
                script.append(setter(*rng.choice(a["sets"])))
            elif x < 0.85:
                script.append({"op": "check", "id": 1, "p": rng.choice(["Unified", "Tags", "Docs"])})
            else:
                script += repair(combo)
        scripts.append(script)
    ctx.scripts(scripts, "long histories")
    # documents of every shape: one field assigned away, exchanged, put back
    P = Places(ctx)
    scripts = []
    for s in (P.refs if not ctx.quick else rng.sample(P.refs, 200)):
        t = P.right(s, True)
        d = merged(fill(s["d"], pointer(t["path"])), t["d"])
        if d is None:
            continue
        top, ttop = s["path"][0], t["path"][0]
        val = {k: v for k, v in d["v"]}
        bad = {k: v for k, v in fill(s["d"], pointer(t["path"]) + "x")["v"]}
        w = P.part(rng.choice([k for k in P.kinds if k not in s["kinds"]]), True)
        wrong = merged(fill(s["d"], pointer(w["path"])), w["d"]) if w["path"][0] != top else None
        steps = [setter(top, bad[top]), setter(top, val[top])]
        if ttop != top:
            steps += [setter(ttop, N), setter(top, N if top != "info" else O([["title", S("t")], ["version", S("1")]])), setter(ttop, N), setter(top, val[top]), setter(ttop, val[ttop]), setter(top, val[top])]
        if wrong:
            steps += [setter(top, {k: v for k, v in wrong["v"]}[top])]
        steps += [setter("x-a", O([["$ref", S("#/nowhere")]])), {"op": "dump", "id": 1, "path": []}]
        scripts.append([new(d, ["Unified"])] + steps)
    ctx.scripts(scripts, "every place: broken, repaired, moved")



# ---- references followed by hand
def resolves(d, refs, rng, seen=0.2):
    """one document and many references, some with a set of references already followed"""
    qs = []
    for r in refs:
        given = rng.random() < seen
        qs.append({"ref": r, "given": int(given), "seen": rng.sample(refs, rng.choice([0, 0, 1, 2])) if given and len(refs) > 1 else []})
    return [{"op": "resolve", "arg": d, "how": rng.choice(["data", "data", "json", "kw"]), "refs": qs}]


def strings_in(d):
    if d["t"] == "o":
        for k, v in d["v"]:
            if k in ("$ref", "ref") and v["t"] == "s":
                yield v["v"]
            else:
                yield from strings_in(v)
    elif d["t"] == "a":
        for v in d["v"]:
            yield from strings_in(v)


def wandering(rng, path):
    """pointers close to a pointer that leads somewhere"""
    p = list(path)
    i = rng.randrange(len(p))
    return [pointer(p[:i] + [x] + p[i + 1:]) for x in rng.sample(near(rng, p[i]), 2)] + [pointer(p + [rng.choice(["x", "title", "root", "0", "model_fields", p[-1], "$ref", "ref", "x-a"])]), pointer(p[:-1]) if len(p) > 1 else "#", pointer(p[1:]) if len(p) > 1 else "#/", pointer([p[0]] + p)]


def A09(ctx):
    P = Places(ctx)
    rng = ctx.rng
    scripts = []
    for t in P.parts:                                    # every part, everything on the way to it, and beside it
        for _ in range(ctx.pick(1, 5)):
            d = merged(t["d"], *[rng.choice(P.parts)["d"] for _ in range(rng.choice([0, 0, 1, 2]))]) or t["d"]
            refs = [pointer(t["path"][:i + 1]) for i in range(len(t["path"]))]
            scripts.append(resolves(d, refs + rng.sample(wandering(rng, t["path"]), 3) + ["https://example.com/a#/" + "/".join(t["path"]), rng.choice(["", "#", "#/", "x", "other.yaml" + refs[-1]])], rng))
    ctx.scripts(scripts, "every part")
    scripts = []
    for s in P.refs:                                     # a reference at every place is followed, and stands in the way
        for _ in range(ctx.pick(1, 6)):
            t = P.right(s, rng.random() < 0.5)
            there = pointer(t["path"])
            d = P.doc(s, rng.choice([there, there, there, there + "x", "https://example.com/t", "http://example.com", "#/nowhere", "t", "#"]), t)
            if not d or "[]" in s["path"]:
                continue
            at = ["s" if x == "*" else x for x in s["path"]]
            scripts.append(resolves(d, [pointer(at), there, pointer(at + [rng.choice(["title", "description", "name", "root", "$ref", t["path"][-1]])]), pointer(at[:-1])], rng))
    ctx.scripts(scripts, "references at every place")
    scripts = []
    for colls, alike in [("mes_cha_mes", 1)] if ctx.quick else [("mes_mes_sch", 0), ("mes_cha_mes", 1), ("root_ser", 1), ("root_ope", 0), ("mes_mes_mes_mes", 0)]:
        for d in ctx.emitted("RefGraph", "SPECIFICATION Spec\nINVARIANTS Agree Whole Short Emit\nPROPERTY Terminates\nCONSTANTS Colls <- C_%s\n LikeNames = %s\n" % (colls, "TRUE" if alike else "FALSE")):
            refs = sorted(set(strings_in(d)) | {p for p, _ in targets(d, "AsyncAPI3", "#")})
            scripts.append(resolves(d, refs, rng, 0.5))
    ctx.scripts(scripts, "all small graphs of references")
    scripts = []
    for s in rng.sample(P.refs, ctx.pick(60, len(P.refs))):
        d = chain(P, s, rng.choice([1, 2, 3, 7, 20, 40]), rng)
        d = d if rng.random() < 0.5 else winding(P, s, rng)
        d and scripts.append(resolves(d, sorted(set(strings_in(d))), rng, 0.4))
    ctx.scripts(scripts, "chains")
    scripts = []
    for _ in range(ctx.pick(60, 1500)):
        g = Gen(rng, names="wire", opt=rng.choice([0.15, 0.3, 0.45]), plan=True, ext=0.02)
        d = g.doc(wrong=rng.random() * 0.5, procs=False)
        paths = [p for p, _ in targets(d, "AsyncAPI3", "#")]
        some = rng.sample(paths, min(len(paths), 12))
        refs = sorted(set(strings_in(d)))
        scripts.append(resolves(d, some + rng.sample(refs, min(len(refs), 8)) + [x for p in some[:4] for x in rng.sample(wandering(rng, p[2:].split("/")), 2)], rng))
    ctx.scripts(scripts, "random documents")
    scripts = []
    names = rng.sample(COLLIDING, len(COLLIDING))        # every name that means something somewhere, and names like each other
    pools = SIMILAR + SPECIAL + [names[i:i + 4] for i in range(0, len(names) - 3, 4)]
    rng.shuffle(pools)
    for k, pool in enumerate(pools * ctx.pick(2, 12)):
        t = rng.choice([t for t in P.parts if "t" in t["path"]])
        ds = [rename(t["d"], t["path"], "t", [rng.choice(pool) for x in t["path"] if x == "t"][:-1] + [x]) for x in pool]
        d = merged(*ds) or ds[0]
        refs = [p for p, _ in targets(d, "AsyncAPI3", "#")]
        some = rng.sample(refs, min(len(refs), 10))
        scripts.append(resolves(d, refs[-6:] + some + [x for p in some[:2] for x in rng.sample(wandering(rng, p[2:].split("/")), 2)], rng))
    ctx.scripts(scripts, "names")
    scripts = []
    for _ in range(ctx.pick(80, 2000)):                  # a live document, changed between the calls
        coll, item = rng.choice([("messages", O([["name", S("m")]])), ("channels", O([["address", S("a")]])), ("schemas", O([["type", S("string")]])), ("tags", O([["name", S("t")]])), ("parameters", O([]))])
        root = coll == "channels" and rng.random() < 0.5
        at = ["channels"] if root else ["components", coll]
        names = rng.sample(rng.choice(SIMILAR[:10]), 2) + ["n"]
        thing = lambda: rng.choice([item, ref(pointer(at + [rng.choice(names)])), ref(pointer(at + [rng.choice(names)])), ref("https://example.com/x")])
        put = lambda k: {"op": "put", "id": 1, "path": at, "key": k, "arg": thing()}
        refs = [pointer(at + [k]) for k in names] + [pointer(at), pointer(at + [names[0], "name" if coll in ("messages", "tags") else "description"]), "#/info/title", "#/info"]
        look = lambda: [dict(x, id=1) for x in resolves(N, refs, rng, 0.15)]
        inner = O([[k, thing()] for k in names if rng.random() < 0.7])
        s = [{"op": "new", "id": 1, "c": "AsyncAPI3", "procs": [], "how": "data", "arg": O([["info", O([["title", S("t")], ["version", S("1")]])], [at[0], inner if root else O([[coll, inner]])]])}] + look()
        have = {k for k, _ in inner["v"]}
        for _ in range(rng.choice([2, 4, 7])):
            x = rng.random()
            k = rng.choice(names)
            if x < 0.45:
                s.append(put(k))
                have.add(k)
            elif x < 0.65 and have:
                k = rng.choice(sorted(have))
                s.append({"op": "del", "id": 1, "path": at, "key": k})
                have.remove(k)
            elif x < 0.8:
                inner = O([[k, thing()] for k in names if rng.random() < 0.6])
                have = {k for k, _ in inner["v"]}
                s.append({"op": "set", "id": 1, "path": at[:-1], "name": at[-1], "arg": inner})
            elif x < 0.9:
                s.append({"op": "set", "id": 1, "path": ["info"], "name": "title", "arg": S(rng.choice("abc"))})
            s += look()
        scripts.append(s)
    ctx.scripts(scripts, "documents that change")
