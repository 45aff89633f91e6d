"""B01, B02: the validators for tag and external docs references."""
import words
from check_refs import Places, copies, many, comp, ref, how, random_docs
from codec import *
from docs import *
from gen import Gen, COLLIDING, KEYCHARS


def strings(coll, key, rng):
    """[reference strings], most of them near misses of #/components/<coll>/<key>"""
    p = "#/components/%s/" % coll
    other = "externalDocs" if coll == "tags" else "tags"
    return [p + key, p, p[:-1], p + key + "/", p + key + "/name", p + "/" + key, p + p + key, p + p[2:] + key, p + p, p[:-1] + key, p + key + key, p + key + "x", p + key[:-1], p + " " + key, p + key + " ", p + key + "\n",
            p + key.swapcase() + ("" if key != key.swapcase() else "_"), "#", "#/", "##" + p[1:] + key, "#/components/%s/%s" % (other, key), "#components/%s/%s" % (coll, key), "#/%s/%s" % (coll, key), "#/components/%s/%s" % (coll.upper(), key),
            "#/components/" + key, "#/info", "#/components/%ss/%s" % (coll, key), "#/Components/%s/%s" % (coll, key), "#/components/messages/" + key, "#" + key,
            "", key, p[1:] + key, "other.yaml" + p + key, "https://example.com/" + p + key, "http://x", " " + p + key, "ftp://x", "$" + p, "urn:a", p.replace("#", "?"), "//" + p]


def item_of(P, coll):
    t = next(x for x in P.parts if x["path"] == ["components", coll, "t"])
    return [v for k, v in t["d"]["v"] if k == "components"][0]["v"][0][1]["v"][0][1]


def wrapped(d):
    """the place without its reference: the list or map it stands in is empty, the field left out"""
    bare = O([["$ref", S("@")]])
    if d["t"] == "o":
        return O([[k, wrapped(v)] for k, v in d["v"] if v != bare])
    return A([wrapped(v) for v in d["v"] if v != bare]) if d["t"] == "a" else d


def check(ctx, proc, which, coll, kind):
    P = Places(ctx)
    rng = ctx.rng
    ctx.check_model("Cases", "INIT Init\nNEXT Next\nINVARIANTS RefPlaceFaithful ListedPlaces\n")
    paths = [tuple(p) for p in ctx.cases("refs")[which]]
    slots = [s for s in P.refs if tuple(s["path"]) in set(paths)]
    assert len(slots) == len(paths), set(paths) - {tuple(s["path"]) for s in slots}
    item = item_of(P, coll)
    bare = lambda r: O([["$ref", S(r)]])
    scripts = []

    def add(d, procs=proc):
        if d:
            scripts.append(verdict(d, procs, how(rng)))
    names = sorted(set(COLLIDING) | {"a", "0", "-", "tags", "t" * 80})
    for s in slots:
        for key in ["t"] + rng.sample(names, ctx.pick(1, 10)):
            for r in strings(coll, key, rng):
                d = fill(s["d"], r)
                x = rng.random()
                add(merged(d, comp(coll, key, item)) if x < 0.8 else merged(d, comp(coll, key, bare("https://example.com/%d" % rng.randrange(9)))) if x < 0.9 else d)
        add(fill(s["d"], "#/components/%s/t" % coll))                                # nothing defined
        add(merged(fill(s["d"], "#/components/%s/t" % coll), comp(coll, "u", item)))  # something else defined
        add(merged(fill(s["d"], "#/components/%s/t" % coll), O([["components", O([[coll, O([])]])]])))
        add(merged(fill(s["d"], "#/components/%s/t" % coll), comp(coll, "t", bare("#/components/%s/u" % coll)), comp(coll, "u", item)))
        add(merged(fill(s["d"], "#/components/%s/t" % coll), comp(coll, "t", bare("#/components/%s/t" % coll))))
    ctx.scripts(scripts, "places x strings")
    # every position of every list and map on the way
    scripts = []
    good = "#/components/%s/t" % coll
    for s in slots:
        levels = sum(1 for x in s["path"] if x in ("*", "[]"))
        for level in range(levels):
            for n in ctx.pick([2, 3, 6], [2, 3, 4, 6, 12]):
                for k in range(n) if not ctx.quick else {0, n - 1, rng.randrange(n)}:
                    refs = [good] * n
                    refs[k] = rng.choice(["#/components/%s/missing" % coll, "#/nowhere", good + "x", "https://example.com/", "#/components/messages/t"])
                    d = copies(s, rng, refs, level)
                    add(d and merged(d, comp(coll, "t", item)))
                d = copies(s, rng, [rng.choice([good, "https://example.com/%d" % rng.randrange(2), "x.yaml"]) for _ in range(n)], level)
                add(d and merged(d, comp(coll, "t", item)))
                d = copies(s, rng, [good] * n, level)
                add(d and merged(d, comp(coll, "t", item)))
        for level, at in [(i, j) for j, x in enumerate(s["path"]) if x in ("*", "[]") for i in range(ctx.pick(2, 10))]:
            n = rng.choice([40, 70, 101, 130, 257] + [i + 2 for i in words.INTS if 40 <= i <= 400])
            bad = rng.choice(["#/components/%s/missing" % coll, "#/nowhere", good, "https://example.com/"])
            add(merged(many(s["path"], fill(s["d"], good), fill(s["d"], bad), at, n, rng.choice([n - 1, n - 1, n - 2, rng.randrange(n)])), comp(coll, "t", item)))
    ctx.scripts(scripts, "positions")
    # every place among neighbours of many kinds
    scripts = []
    for s in slots:
        for j in range(ctx.pick(24, 160)):
            r = rng.choice(["#/components/%s/missing" % coll, "#/components/%s/missing" % coll, "#/nowhere", good, "https://example.com/x"])
            kw = {} if j % 2 else {"styles": (rng.choice(["min", "ref", "empty", "rich"]),), "dress": rng.choice([0, 0.15, 0.6])}
            if j % 8 == 7:
                kw = {"styles": ("min",), "sizes": (17, 40), "dress": 0}
            if j % 3:
                kw["safe"] = {s["kinds"][0]: good}
            d = merged(crowd(fill(s["d"], r), s["path"], rng, **kw), comp(coll, "t", item))
            add(d and (decorated(d, rng) if j % 6 == 0 else d))
    ctx.scripts(scripts, "places among neighbours")
    scripts = []
    for s in slots:
        for _ in range(ctx.pick(1, 6)):
            for x in beside(fill(s["d"], rng.choice(["#/components/%s/missing" % coll, "#/nowhere", good, "https://example.com/x"])), s["path"], rng, 12, safe=rng.choice([{}, {s["kinds"][0]: good}])):
                add(merged(x, comp(coll, "t", item)))
    ctx.scripts(scripts, "places x fields beside them")
    # several places at once; map keys that look like field names
    scripts = []
    for _ in range(ctx.pick(300, 6000)):
        d = None
        bad = rng.random() < 0.4
        ss = rng.sample(slots, rng.choice([2, 3, 5, 9]))
        hit = rng.randrange(len(ss))
        for i, s in enumerate(ss):
            r = rng.choice([good, good, "https://example.com/%d" % rng.randrange(3), "other.yaml"])
            if bad and i == hit:
                r = rng.choice(strings(coll, "t", rng))
            ns = [rng.choice(names) for x in s["path"] if x == "*"]
            x = rename(fill(s["d"], r), s["path"], "s", ns)
            d = x if d is None else merged(d, x) or d
        add(merged(d, comp(coll, "t", item)), rng.choice([[proc], [proc], ["Tags", "Docs"]]))
    ctx.scripts(scripts, "several references")
    # the same names at the root and in components; pairs of places
    scripts = []
    twin = {tuple(s["path"]): s for s in slots}
    pairs = [(s, twin[p]) for s in slots for p in (tuple(s["path"][1:]), ("components", *s["path"])) if p in twin]
    assert pairs
    pairs += [(s, rng.choice(slots)) for s in slots for _ in range(ctx.pick(6, len(slots)))]
    for s, u in pairs:
        for r, q in ((good, "#/components/%s/missing" % coll), ("#/nowhere", good), (good, good), (good, None), ("#/nowhere", None)):
            if q is None:
                d = merged(fill(s["d"], r), wrapped(u["d"]))
            else:
                d = merged(fill(s["d"], r), fill(u["d"], q))
            add(d and merged(d, comp(coll, "t", item)))
    ctx.scripts(scripts, "pairs of places")
    # references of other kinds do not matter
    scripts = []
    others = [s for s in P.refs if tuple(s["path"]) not in set(paths) and kind not in s["kinds"]]
    for s in (others if not ctx.quick else rng.sample(others, 150)):
        for r in rng.sample(["#/nowhere", "https://example.com/", "x", "#", "#/components/%s/nothing" % coll, good], 2):
            t = rng.choice(slots)
            add(merged(fill(s["d"], r), fill(t["d"], good), comp(coll, "t", item)))
            add(fill(s["d"], r))
    ctx.scripts(scripts, "references of other kinds")
    docs = []
    for _ in range(ctx.pick(250, 5000)):
        g = Gen(rng, names=rng.choice(["wire", "py", "mix"]), opt=rng.choice([0.2, 0.35, 0.5]), plan=True, ext=0.02, reflike=rng.choice([0.2, 0.5]), keys=rng.sample(["a", "b", "t", "tags", "0"], 2) if rng.random() < 0.3 else None)
        d = g.doc(wrong=0)
        for kinds, x in g.slots:
            if kinds == [kind] or set(kinds) == {kind}:
                y = rng.random()
                keys = [k[0] for c in d["v"] if c[0] == "components" and c[1]["t"] == "o" for cc in c[1]["v"] if cc[0] in (coll, "external_docs") and cc[1]["t"] == "o" for k in cc[1]["v"]]
                x["v"] = rng.choice(["https://example.com/%d" % rng.randrange(3), "x.yaml#/a"]) if y < 0.15 or (not keys and y < 0.9) else "#/components/%s/%s" % (coll, rng.choice(keys or ["t"])) if y < 0.97 else rng.choice(strings(coll, "t", rng))
        docs.append(verdict(d, proc, how(rng)))
    ctx.scripts(docs, "random documents")
    # live documents: checked, edited, checked again, by one or two validator objects
    scripts = []
    for _ in range(ctx.pick(150, 2500)):
        s = rng.choice(slots)
        script = [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": merged(fill(s["d"], rng.choice([good, "#/components/%s/u" % coll, "https://example.com/"])), comp(coll, "t", item)), "procs": [], "how": "data"}]
        for _ in range(rng.choice([2, 4, 7])):
            x = rng.random()
            if x < 0.5:
                script.append({"op": "check", "id": 1, "p": proc, "inst": rng.choice([0, 0, 1])})
            elif x < 0.7:
                script.append({"op": "del", "id": 1, "path": ["components", coll], "key": rng.choice(["t", "u"])})
            elif x < 0.9:
                script.append({"op": "put", "id": 1, "path": ["components", coll], "key": rng.choice(["t", "u"]), "arg": rng.choice([item, ref(good), ref("https://example.com/2"), ref("#/nowhere")])})
            else:
                script.append({"op": "set", "id": 1, "path": ["components"], "name": {"tags": "tags", "externalDocs": "external_docs"}[coll], "arg": rng.choice([O([]), O([["t", item]]), O([["u", item]])])})
        script.append({"op": "check", "id": 1, "p": proc, "inst": 0})
        scripts.append(script)
    ctx.scripts(scripts, "live documents")


def B01(ctx):
    check(ctx, "Tags", "tags", "tags", "Tag")


def B02(ctx):
    check(ctx, "Docs", "docs", "externalDocs", "ExternalDocumentation")
