"""D01-D07: data in, data out."""
import itertools

import words
from check_refs import Places, random_docs
from codec import *
from docs import *
from gen import Gen, META, FIELDS, FK, EXT, BADEXT, ALLNAMES, STR, SCHEMAKEYS, F, targets

INV = "INIT Init\nNEXT Next\nINVARIANTS %s\n"
JUNK = [N, I(7), S("zzz"), F(1.5), A([]), A([O([])]), B(True), S("")]


def hows(rng):
    return rng.choice(["data", "data", "json", "bytes", "kw"])


def load(c, d, how="data", full=1):
    return [{"op": "load", "c": c, "arg": d, "how": how, "full": full}]


def probes(ctx):
    ctx.check_model("Cases", INV % "MinimalFaithful", workers=2)
    return ctx.cases("probes")


def in_document(P, rng, c, d):
    """data of class c as a part of a document, where one exists"""
    ps = P.of.get(c)
    if not ps:
        return None
    p = rng.choice(ps)

    def go(x, path):
        if not path:
            return d
        return O([[k, go(v, path[1:]) if k == path[0] else v] for k, v in x["v"]])
    return go(p["d"], p["path"])


class Parts(Places):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.of = {}
        for p in self.parts:
            if p["kinds"] != ["other"]:
                self.of.setdefault(p["kinds"][0], []).append(p)


def random_objects(ctx, n, bad, full=1, classes=None, **kw):
    rng = ctx.rng
    out = []
    cs = classes or [c for c in META if c != "Reference"]
    for _ in range(n):
        c = rng.choice(cs)
        g = Gen(rng, names=rng.choice(["wire", "wire", "py", "mix"]), opt=rng.choice([0.15, 0.4, 0.7]), bad=bad if rng.random() < 0.7 else 0, depth=5, **kw)
        out.append(load(c, g.obj(c, rng.choice([0, 3])), hows(rng), full))
    return out


def random_full_docs(ctx, n, bad, full=1, **kw):
    rng = ctx.rng
    out = []
    for _ in range(n):
        g = Gen(rng, names=rng.choice(["wire", "wire", "py", "mix"]), opt=rng.choice([0.12, 0.25, 0.35]), bad=bad if rng.random() < 0.5 else 0, **kw)
        out.append(load("AsyncAPI3", g.obj("AsyncAPI3"), hows(rng), full))
    return out


def near_names(f):
    w, py = f["w"], f["py"]
    out = {w.swapcase(), w.capitalize(), w.upper(), w + "s", w[:-1], w + "_", "_" + w, " " + w, w + " ", py.replace("_", "-"), py.replace("_", ""), py.rstrip("_"), w.lower(), "$" + w, w.replace("Id", "ID"), "x" + w, w + "\n"}
    return sorted(n for n in out if n)


def scalars(ty):
    """the places inside a type that take scalars, with the way there"""
    k = ty["k"]
    if k == "union":
        for a in ty["alts"]:
            yield from scalars(a)
    elif k == "list":
        for t, w in scalars(ty["of"]):
            yield t, lambda v, w=w: A([w(v)])
    elif k == "dict":
        for t, w in scalars(ty["of"]):
            yield t, lambda v, w=w: O([["k", w(v)]])
    elif k not in ("obj", "any", "null"):
        yield ty, lambda v: v


def worded(ctx, cases, c, n):
    """values occurring in the code, and others close to a literal, in every place that takes scalars"""
    rng = ctx.rng
    out = []
    for f in META[c]["f"] if META[c]["x"] != "map" else []:
        for t, wrap in scalars(f["ty"]):
            text = t["k"] not in ("int", "intmin", "intrange", "bool") and not (t["k"] == "lit" and t["vs"][0]["t"] == "i")
            vs = [S(words.string(rng)) for _ in range(n)] if text else [I(words.number(rng)) for _ in range(n)]
            if t["k"] == "lit" and text:
                vs += [S(words.vary(rng, v["v"])) for v in t["vs"] for _ in range(2)]
            if t["k"] in ("url", "httpurl", "email", "semver", "bool"):
                continue
            for v in vs:
                v = wrap(v)
                if rng.random() < 0.5:
                    m = cases["minimal"][c]
                    out.append(load(c, O([p for p in m["v"] if p[0] != f["w"]] + [[rng.choice([f["w"], f["w"], f["py"]]), v]]), hows(rng), 0))
                else:
                    g = Gen(rng, opt=0.4, depth=4)
                    d = g.obj(c, 3)
                    out.append(load(c, O([p for p in d["v"] if p[0] not in (f["w"], f["py"])] + [[f["w"], v]]), hows(rng), 0))
    return out


def spots(ty):
    """every place inside a type, with the way there"""
    yield ty, lambda v: v
    if ty["k"] == "union":
        for a in ty["alts"]:
            yield from spots(a)
    elif ty["k"] == "list":
        for t, w in spots(ty["of"]):
            yield t, lambda v, w=w: A([w(v)])
    elif ty["k"] == "dict" and ty["of"]["k"] != "any":
        for t, w in spots(ty["of"]):
            yield t, lambda v, w=w: O([["k", w(v)]])


# values no reading of numbers and truth values admits
NOINT = [F(x) for x in (0.5, 1.5, -0.5, 2.5, 1e-9, 59999.5, -1.25)] + [S(x) for x in ("", "zzz", "1.5", "0x1", "one", "1e3", "1 0", "--1")] + [A([I(1)]), O([])]
NOBOOL = [I(2), I(-1), I(7), F(0.5), F(1.5), F(-1.0), S(""), S("zzz"), S("nope"), S("2"), S("null"), S("tru"), A([B(True)]), O([])]
NOTEXT = [I(0), I(1), F(0.0), F(1.0), B(True), B(False), F(1.5), I(2**31), A([S("a")]), O([["a", S("a")]])]
HOLES = [O([["a", N]]), O([["a", N], ["b", I(1)], ["c", N]]), O([["a", O([["b", N]])]]), O([["a", A([N, I(1), N])]]), O([["", S("")], ["b", O([])], ["c", A([])], ["d", B(False)], ["e", I(0)]]),
         O([["b", I(1)], ["a", I(2)], ["B", I(3)], ["0", I(4)]]), O([["type", N], ["x-a", N], ["$ref", N]]), O([["a", S("1")], ["b", S("true")], ["c", S("null")], ["d", F(1.0)], ["e", I(1)]]),
         O([["$ref", S("#/a")], ["description", S("d")]]), O([["$ref", S("#/a")]]), O([["a", O([["$ref", S("#/a")]])]])]
LONG = [255, 256, 257, 512, 1001, 1025, 4097, 5001, 10001, 70000]
HTTPLONG = [100, 500, 1900]


def unusual(ctx, cases, c, full):
    """long strings, lists with repeated elements, maps with nulls, numbers of the wrong kind: in every place of a class"""
    rng = ctx.rng
    quick = ctx.quick
    some = lambda xs, n: xs if not quick or len(xs) <= n else rng.sample(xs, n)
    g = Gen(rng, opt=0.4, depth=4)
    out = []
    for f in META[c]["f"] if META[c]["x"] != "map" else [None]:
        for t, wrap in spots(f["ty"] if f else META[c]["of"]):
            k, vs = t["k"], []
            if k in ("str", "strmax", "url", "httpurl", "rtexpr"):
                vs += some(NOTEXT, 1)
            if k == "str":
                vs += [S((words.string(rng) or "s") + rng.choice("ab- \n") * n) for n in some(LONG, 2)]
                vs += [S(x) for x in some(["a" * 1000, " " * 1001, "\n" * 30, "a\tb\r\nc", "\x00", "\x7f\x80", "\u2028", "\ufeffa", "a\u0301", "\u00e1"], 2)]
            elif k in ("url", "httpurl"):
                vs += [S("https://example.com/" + "a" * n) for n in HTTPLONG]
            elif k in ("int", "intmin", "intrange", "bool"):
                vs += some(NOBOOL if k == "bool" else NOINT, 3 if full else 8)
            elif k == "lit":
                vs += some(NOINT if t["vs"][0]["t"] == "i" else NOTEXT, 2)
            elif k == "any" or k == "dict" and t["of"]["k"] == "any":
                vs += some(HOLES, 4)
            elif k == "list":
                x, y = g.ty(t["of"], (), 3), g.ty(t["of"], (), 3)
                vs += [A([x, x]), A([x, y, x]), A([y, x, x, y])]
                for z in g.alike(x)[:2 if quick else 8]:
                    vs += [A([x, z]), A([z, x])]
                vs.append(A(g.ty(t["of"], (), 4) for _ in range(rng.choice([10, 40]))))
                if x["t"] == "o" and x["v"]:       # alike in one field only
                    for i in range(len(x["v"])) if not quick else rng.sample(range(len(x["v"])), min(2, len(x["v"]))):
                        vs.append(A([x, O([p if j == i else [p[0], next((q[1] for q in y["v"] if y["t"] == "o" and q[0] == p[0]), p[1])] for j, p in enumerate(x["v"])])]))
            elif k == "obj" and META[t["c"]]["x"] == "map":
                x = g.ty(META[t["c"]]["of"], (), 3)
                vs += [O([["a", x], ["b", x], ["A", x]])]
            for v in vs:
                if f is None:
                    d = O([["k", wrap(v)]])
                else:
                    m = cases["minimal"][c]
                    d = O([p for p in m["v"] if p[0] != f["w"]] + [[rng.choice([f["w"], f["w"], f["py"]]), wrap(v)]])
                    if not quick or rng.random() < 0.3:
                        e = g.obj(c, 3)
                        d = O([p for p in e["v"] if p[0] not in (f["w"], f["py"])] + [[f["w"], wrap(v)]])
                yield d


def foreign_objects(ctx, cases, n):
    """objects of one class where another is expected"""
    import live
    rng = ctx.rng
    out = []
    for c in sorted(META):
        for f in ([None] if META[c]["x"] == "map" else META[c]["f"]):
            ty = META[c]["of"] if f is None else f["ty"]
            if any(a.get("c") in ("MultiFormatSchema", "Schema") for a in live.alts(ty)):
                continue
            for a in live.alts(ty):
                wraps = {"obj": lambda v: v, "list": lambda v: A([v]), "dict": lambda v: O([["k", v]])}
                if a["k"] not in wraps or (a["k"] == "dict" and a["of"]["k"] == "any"):
                    continue
                if any(b.get("c") in ("MultiFormatSchema", "Schema") for b in live.alts(a.get("of", a))):
                    continue
                for _ in range(n):
                    o = rng.choice([k for k in META if k != "Reference"])
                    v = wraps[a["k"]](cases["minimal"][o] if rng.random() < 0.4 else Gen(rng, opt=0.4, depth=4).obj(o, 4))
                    m = cases["minimal"][c]
                    out.append(load(c, O([["k", v]]) if f is None else O([p for p in m["v"] if p[0] != f["w"]] + [[f["w"], v]]), hows(rng), 0))
    return out


def D01(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    for c in sorted(META):
        ps = cases["probes"][c]
        for d in ps:
            scripts.append(load(c, d, hows(rng), 0))
        for d in cases["omits"][c] + ([] if META[c]["x"] == "map" else JUNK):
            scripts.append(load(c, d, rng.choice(["data", "json"]), 0))
        for d in (rng.sample(ps, min(len(ps), 12)) if ctx.quick else ps):
            x = in_document(P, rng, c, d)
            if x:
                scripts.append(load("AsyncAPI3", x, hows(rng), 0))
    ctx.scripts(scripts, "classes x fields x values")
    # names that are not quite those of a field
    scripts = []
    for c in sorted(META):
        if META[c]["x"] not in ("ext", "no") or c == "Reference":
            continue
        known = {n for f in META[c]["f"] for n in (f["py"], f["w"])} | {"extra_converters", "extra_validators"}
        for f in META[c]["f"]:
            names = [n for n in near_names(f) if n not in known]
            for n in rng.sample(names, min(len(names), ctx.pick(3, 20))):
                d = cases["minimal"][c]
                v = next((v for k, v in d["v"] if k == f["w"]), S("v"))
                scripts.append(load(c, O([p for p in d["v"] if p[0] != f["w"]] + [[n, v]]), "data", 0))
                scripts.append(load(c, O(d["v"] + [[n, v]]), "data", 0))
        foreign = [n for n in ALLNAMES if n not in known]
        for n in rng.sample(foreign, ctx.pick(4, 40)):
            scripts.append(load(c, O(cases["minimal"][c]["v"] + [[n, S("v")]]), "data", 0))
    ctx.scripts(scripts, "unknown field names")
    ctx.scripts([x for c in sorted(META) for x in worded(ctx, cases, c, ctx.pick(4, 60))], "words of the code")
    ctx.scripts([load(c, d, hows(rng), 0) for c in sorted(META) for _ in range(ctx.pick(1, 3)) for d in unusual(ctx, cases, c, False)], "unusual values")
    ctx.scripts(foreign_objects(ctx, cases, ctx.pick(1, 12)), "objects of other classes")
    # two fields off at a time, several fields set
    ctx.scripts(random_objects(ctx, ctx.pick(2500, 30000), 0.12, 0), "random objects")
    ctx.scripts(random_full_docs(ctx, ctx.pick(150, 3000), 0.03, 0), "random documents")


def D02(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    for c, w in (("AnypointMQChannelBindings", "destinationType"), ("PulsarRetention", "time"), ("PulsarRetention", "size")):
        scripts.append(load(c, O([[w, N]])))        # the known finding
    for c in sorted(META):
        ps = cases["probes"][c]
        for d in ps:
            scripts.append(load(c, d, hows(rng)))
        scripts.append(load(c, cases["minimal"][c]))
        for d in rng.sample(ps, min(len(ps), ctx.pick(3, 30))):
            x = in_document(P, rng, c, d)
            if x:
                scripts.append(load("AsyncAPI3", x, hows(rng)))
    ctx.scripts(scripts, "probe values")
    ctx.scripts([load(c, d, hows(rng)) for c in sorted(META) for d in unusual(ctx, cases, c, True)], "unusual values")
    ctx.scripts(random_objects(ctx, ctx.pick(1200, 25000), 0), "random objects")
    ctx.scripts(random_full_docs(ctx, ctx.pick(250, 5000), 0), "random documents")
    ctx.scripts([load(c, freeform(rng, c), hows(rng)) for c in FREE for _ in range(ctx.pick(25, 400))], "free-form values")
    ctx.scripts([big(rng) for _ in range(ctx.pick(12, 200))], "large maps and lists")


FREE = ["Schema", "MultiFormatSchema", "MessageExample", "KafkaTopicConfiguration", "ServerVariable", "AMQPExchange", "Message", "SQSPolicy" if "SQSPolicy" in META else "Tag", "Info"]


def freeform(rng, c):
    g = Gen(rng, opt=0.6, ext=0.5)
    deep = g.any()
    for _ in range(rng.choice([0, 3, 12])):
        deep = O([[rng.choice(STR), deep], [rng.choice(SCHEMAKEYS), g.any()]]) if rng.random() < 0.6 else A([g.any(), deep])
    d = g.obj(c)
    if c == "Schema":
        ks = {k for k, _ in d["v"]}
        if rng.choice(SCHEMAKEYS) not in ks:
            k = rng.choice([k for k in SCHEMAKEYS if k not in ks and k not in FIELDS["Schema"] and k not in {f["w"] for f in META["Schema"]["f"]}])
            d = O(d["v"] + [[k, deep]])
    elif META[c]["x"] == "ext":
        d = O([p for p in d["v"] if p[0] != "x-deep"] + [["x-deep", deep]])
    return d


def big(rng):
    n = rng.choice([50, 200])
    names = ["k%d" % i for i in range(n)]
    rng.shuffle(names)
    d = O([["info", O([["title", S("t")], ["version", S("1")], ["tags", A([O([["name", S("t%d" % i)]]) for i in range(n)])]])],
           ["channels", O([[k, O([["address", S(k)]])] for k in names])],
           ["components", O([["schemas", O([[k, O([["type", S("object")], ["properties", O([["a", O([["type", S("string")]])]])]])] for k in reversed(names)])]])]])
    return load("AsyncAPI3", d, hows(rng))


def D03(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    for c in sorted(META):
        if META[c]["x"] == "map":
            continue
        fs = [f["py"] for f in META[c]["f"]]
        subsets = [set(), set(fs)] + [{f} for f in fs] + [set(fs) - {f} for f in fs]
        subsets += [set(rng.sample(fs, rng.randrange(len(fs) + 1))) for _ in range(ctx.pick(4, 60))] if fs else []
        if not ctx.quick:
            subsets += [{f, g} for f, g in itertools.combinations(fs, 2)]
        for s in subsets:
            g = Gen(rng, names=rng.choice(["wire", "py", "mix"]), opt=0.2, depth=3)
            d = g.obj(c, 2, fields=s)
            for f in rng.sample(fs, min(len(fs), rng.choice([0, 0, 1, 2]))):     # explicit nulls are not written
                fd = FIELDS[c][f]
                if any(a["k"] == "null" for a in (fd["ty"]["alts"] if fd["ty"]["k"] == "union" else [fd["ty"]])) and fd["def"] == N and not ({fd["w"], f} & {k for k, _ in d["v"]}):
                    d = O(d["v"] + [[fd["w"], N]])
            scripts.append(load(c, d, hows(rng)))
            if rng.random() < ctx.pick(0.3, 1):
                x = in_document(P, rng, c, d)
                if x:
                    scripts.append(load("AsyncAPI3", x, hows(rng)))
    ctx.scripts(scripts, "subsets of fields")
    ctx.scripts(random_full_docs(ctx, ctx.pick(200, 4000), 0), "random documents")
    ctx.scripts([load(c, d, hows(rng)) for c in sorted(META) for d in unusual(ctx, cases, c, True)], "unusual values")
    # the processor configuration is never written; channels always have an address
    scripts = []
    for _ in range(ctx.pick(80, 1000)):
        g = Gen(rng, opt=0.2)
        d = g.obj("AsyncAPI3")
        scripts.append([{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": rng.choice([[], ["Tags"], ["Unified"], ["Docs", "Tags"]]), "how": hows(rng)}, {"op": "dump", "id": 1, "path": []},
                        {"op": "set", "id": 1, "path": [], "name": rng.choice(["id", "servers", "operations"]), "arg": N}, {"op": "dump", "id": 1, "path": []}])
    ctx.scripts(scripts, "documents with validators")
    # after assignments: fields that become null disappear from the output, others appear
    scripts = []
    for c in sorted(META):
        if META[c]["x"] == "map":
            continue
        for _ in range(ctx.pick(2, 25) if META[c]["f"] else 0):
            g = Gen(rng, opt=0.4, depth=4)
            script = [{"op": "new", "id": 1, "c": c, "arg": g.obj(c, 3), "procs": [], "how": "data"}, {"op": "dump", "id": 1, "path": []}]
            for _ in range(3):
                f = rng.choice(META[c]["f"])
                script += [{"op": "set", "id": 1, "path": [], "name": f["py"], "arg": N if rng.random() < 0.5 else g.ty(f["ty"], (), 4)}, {"op": "dump", "id": 1, "path": []}]
            scripts.append(script)
    ctx.scripts(scripts, "after assignments")


def D04(ctx):
    import check_rules
    rng = ctx.rng
    G = check_rules.grids(ctx)
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    for c in sorted(META):
        if META[c]["x"] == "map":
            continue
        for d in cases["omits"][c]:
            for h in ("data", "json", "kw"):
                scripts.append(load(c, d, h))
        fs = META[c]["f"]
        defaulted = [i for i, f in enumerate(fs) if f["def"] != N]
        # an explicit value is never replaced by a default
        for d in cases["probes"][c]:
            k = d["v"] and {p[0] for p in d["v"]}
            if any(fs[i]["w"] in k for i in defaulted):
                scripts.append(load(c, d, hows(rng)))
        # every field with a default left out while others are set
        for _ in range(ctx.pick(16 if defaulted else 2, 200 if defaulted else 30)):
            g = Gen(rng, names=rng.choice(["wire", "mix"]), opt=0.5, depth=4)
            names = {f["py"] for f in fs if f["def"] == N and rng.random() < 0.6} | {fs[i]["py"] for i in defaulted if rng.random() < 0.4}
            scripts.append(load(c, g.obj(c, 3, fields=names), hows(rng)))
        # the coupled fields in all combinations, those with defaults left out
        if c in G and defaulted:
            kept = [(w, vs if w not in {fs[i]["w"] for i in defaulted} else [{"t": "absent", "v": ""}] + vs) for w, vs in G[c]]
            for ch in check_rules.points(ctx, kept, ctx.pick(60, 1500)):
                d = check_rules.dressed(rng, c, check_rules.data(kept, ch), 0.6)
                if rng.random() < 0.7:
                    d = O([p for p in d["v"] if not any(p[0] in (fs[i]["w"], fs[i]["py"]) for i in defaulted)])
                scripts.append(load(c, d, hows(rng)))
    ctx.scripts(scripts, "omitted fields")
    # every part of a document in its smallest form
    scripts = []
    for p in P.parts:
        if p["kinds"] != ["other"] and (not ctx.quick or rng.random() < 0.4):
            scripts.append(load("AsyncAPI3", p["d"], hows(rng)))
    ctx.scripts(scripts, "nested in documents")
    # a field with a default assigned and set back
    scripts = []
    for c in sorted(META):
        for f in META[c]["f"]:
            if f["def"] == N:
                continue
            g = Gen(rng, opt=0.3, depth=4)
            for _ in range(ctx.pick(2, 12)):
                scripts.append([{"op": "new", "id": 1, "c": c, "arg": cases["minimal"][c], "procs": [], "how": "data"},
                                {"op": "set", "id": 1, "path": [], "name": f["py"], "arg": rng.choice([N, g.ty(f["ty"], (), 4), g.ty(f["ty"], (), 4)])}, {"op": "dump", "id": 1, "path": []},
                                {"op": "set", "id": 1, "path": [], "name": f["py"], "arg": f["def"]}, {"op": "dump", "id": 1, "path": []}])
    ctx.scripts(scripts, "assigned")


def pair(c, a, ha, b, hb, procs=()):
    e = lambda i, d, h: {"op": "new", "id": i, "c": c, "arg": d, "procs": list(procs), "how": h}
    return [e(1, a, ha), e(2, b, hb), {"op": "eq", "a": 1, "b": 2}, {"op": "dump", "id": 1, "path": []}, {"op": "dump", "id": 2, "path": []}]


def D05(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    for c in sorted(META):
        if META[c]["x"] == "map":
            continue
        ps = cases["probes"][c] + cases["omits"][c]
        ps = [d for d in ps if d["t"] == "o"]
        for d in ps:
            scripts.append(pair(c, d, hows(rng), spell(d, c, "py", rng), hows(rng)))
        # every field alone under each name
        for f in META[c]["f"]:
            g = Gen(rng, opt=0.4, depth=4)
            d = g.obj(c, 3, fields={f["py"]})
            scripts.append(pair(c, d, hows(rng), spell(d, c, "py", rng), hows(rng)))
        for _ in range(ctx.pick(3, 40)):
            g = Gen(rng, opt=0.6, depth=5)
            d = g.obj(c, 1)
            scripts.append(pair(c, spell(d, c, rng.choice(["w", "py", "mix"]), rng), hows(rng), spell(d, c, rng.choice(["py", "mix"]), rng), hows(rng)))
    ctx.scripts(scripts, "objects in several spellings")
    # extensions whose names repeat those of fields beside them, under either name
    scripts = []
    for c in sorted(META):
        if META[c]["x"] == "map":
            continue
        for f in META[c]["f"]:
            g = Gen(rng, opt=0.2, depth=3, ext=0)
            d = decorated(g.obj(c, 2, fields={f["py"]}), rng, 1, c)
            scripts.append(pair(c, d, hows(rng), spell(d, c, "py", rng), hows(rng)))
    for _ in range(ctx.pick(60, 1500)):
        g = Gen(rng, opt=rng.choice([0.15, 0.3]), plan=True, ext=0)
        d = decorated(g.doc(wrong=0.2), rng, 0.8)
        scripts.append(pair("AsyncAPI3", d, hows(rng), spell(d, "AsyncAPI3", rng.choice(["py", "mix"]), rng), hows(rng), rng.choice([[], ["Unified"]])))
    ctx.scripts(scripts, "extensions named after fields")
    scripts = []
    for p in P.parts:
        if not ctx.quick or rng.random() < 0.25:
            scripts.append(pair("AsyncAPI3", p["d"], "data", spell(p["d"], "AsyncAPI3", rng.choice(["py", "mix"]), rng), hows(rng)))
    ctx.scripts(scripts, "parts of documents in several spellings")
    scripts = []
    for _ in range(ctx.pick(120, 2500)):
        g = Gen(rng, opt=rng.choice([0.15, 0.3]), plan=True, bad=0.01 if rng.random() < 0.3 else 0)
        d = g.doc(wrong=0.3)
        scripts.append(pair("AsyncAPI3", d, hows(rng), spell(d, "AsyncAPI3", "py", rng), hows(rng), rng.choice([[], ["Unified"]])))
        scripts.append(pair("AsyncAPI3", spell(d, "AsyncAPI3", "mix", rng), hows(rng), spell(d, "AsyncAPI3", "mix", rng), hows(rng), rng.choice([[], ["Unified"]])))
    ctx.scripts(scripts, "documents in several spellings")


SIBLINGS = [("description", S("d")), ("type", S("object")), ("title", S("")), ("x-a", I(1)), ("properties", O([])), ("summary", N), ("deprecated", B(False)), ("externalDocs", O([["url", S("https://example.com/")]])), ("$id", S("i")), ("$defs", O([])),
            ("allOf", A([])), ("discriminator", S("d")), ("$schema", S("s")), ("format", S("f")), ("default", N), ("name", S("n")), ("headers", O([]))]


def shapes(rng, ty, cases):
    """data for a place with alternatives"""
    alts = [a for a in ty["alts"] if a["k"] != "null"]
    g = Gen(rng, opt=0.4, depth=4)
    out = [O([["$ref", S(r)]]) for r in ("#/a", "https://example.com/", "", "#/components/schemas/x")] + [O([["ref", S("#/a")]])]
    mfs = any(a.get("c") == "MultiFormatSchema" for a in alts)
    for a in alts:
        if a["k"] == "obj" and a["c"] != "Reference":
            m = cases["minimal"][a["c"]]
            out += [m, g.obj(a["c"], 3), g.obj(a["c"], 3)]
            if META[a["c"]]["x"] in ("ext",):
                out += [O(m["v"] + [["x-a", S("v")]])]
            if not mfs and META[a["c"]]["x"] != "any":
                out += [O(m["v"] + [["$ref", S("#/a")]]), O([["$ref", S("#/a")], ["x-a", I(1)]]), O([["$ref", S("#/a")], ["description", S("d")]]), O([["x-a", S("v")]]), O([["zzz", S("v")]]),
                        O([["$ref", I(1)]]), O([["$ref", N]]), O([["$ref", O([])]])]
        elif a["k"] != "obj":
            out += [g.ty(a, (), 4), g.ty(a, (), 4)]
    if mfs:
        sch = lambda *ps: O([list(p) for p in ps])
        for k in SIBLINGS:
            out += [sch(("$ref", S(rng.choice(["#/a", "#/components/schemas/x", "https://example.com/"]))), k), sch(k, ("$ref", S("#/a")))]
        out += [sch(("$ref", x)) for x in (I(1), N, O([]), A([S("#/a")]), B(True))] + [sch(("$ref", S("#/a")), *rng.sample(SIBLINGS, 3))]
        out += [sch(("schema", O([["type", S("object")]]))), sch(("schema", S("syntax = proto3"))), sch(("schema", O([]))), sch(("schema", A([]))), sch(("schema", N)), sch(("schema", B(False))), sch(("schema", I(0))), sch(("schema", S(""))),
                sch(("schemaFormat", S("application/vnd.apache.avro;version=1.9.0")), ("schema", O([["type", S("record")]]))), sch(("schema_format", S("a/b")), ("schema", O([["$ref", S("#/x")]]))),
                sch(("schemaFormat", S("a/b")), ("schema", S("x")), ("x-a", I(1))), sch(("schema", O([])), ("x-a", O([["$ref", S("#/a")]]))),
                sch(("type", S("object")), ("properties", O([["schema", O([["type", S("string")]])]]))), sch(("type", S("object")), ("x-a", I(1))), sch(("title", S("t"))), sch(("description", S("d")), ("foo", N)),
                sch(("properties", O([["$ref", O([["type", S("string")]])]]))), O([]), sch(("allOf", A([O([["$ref", S("#/a")]])]))), sch(("enum", A([N, S("a"), I(1)]))), sch(("const", N)), sch(("default", O([]))),
                sch(("discriminator", S("d"))), sch(("deprecated", B(True))), sch(("externalDocs", O([["url", S("https://example.com/")]]))), sch(("externalDocs", O([["$ref", S("#/a")]])))]
    out += [A([]), S("zzz"), I(7), B(True) if not any(a["k"] in ("int", "bool", "intmin", "intrange") for a in alts) else N, A([O([["$ref", S("#/a")]])]), N]
    return out


def D06(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []

    def unions(ty):
        if ty["k"] == "union":
            if sum(a["k"] != "null" for a in ty["alts"]) > 1:
                yield ty, lambda v: v
            for a in ty["alts"]:
                yield from unions(a)
        elif ty["k"] == "list":
            for t, w in unions(ty["of"]):
                yield t, lambda v, w=w: A([w(v)])
        elif ty["k"] == "dict" and ty["of"]["k"] != "any":
            for t, w in unions(ty["of"]):
                yield t, lambda v, w=w: O([["k", w(v)]])
    n = 0
    for c in sorted(META):
        places = [(None, META[c]["of"])] if META[c]["x"] == "map" else [(f, f["ty"]) for f in META[c]["f"]]
        for f, ty in places:
            for t, wrap in unions(ty):
                n += 1
                for v in shapes(rng, t, cases):
                    if f is None:
                        d = O([["k", v]])
                    else:
                        m = cases["minimal"][c]
                        d = O([p for p in m["v"] if p[0] != f["w"]] + [[rng.choice([f["w"], f["w"], f["py"]]), wrap(v)]])
                    if c == "Channel" and f["w"] == "parameters":
                        d = O(d["v"] + [["address", S("{a}")]])
                    scripts.append(load(c, d, hows(rng)))
                    if rng.random() < ctx.pick(0.15, 0.8):
                        x = in_document(P, rng, c, d)
                        if x:
                            scripts.append(load("AsyncAPI3", x, hows(rng)))
                    if f is not None and rng.random() < ctx.pick(0.3, 1):
                        scripts.append([{"op": "new", "id": 1, "c": c, "arg": cases["minimal"][c], "procs": [], "how": "data"}, {"op": "set", "id": 1, "path": [], "name": f["py"], "arg": wrap(v)}, {"op": "dump", "id": 1, "path": []}])
    ctx.notes.append("%d places with alternatives" % n)
    ctx.scripts(scripts, "places x shapes")
    ctx.scripts(random_objects(ctx, ctx.pick(500, 10000), 0, reflike=0.5, classes=[c for c in META if any(f["ty"]["k"] == "union" for f in META[c]["f"]) or META[c]["x"] == "map"]), "random objects")


def D07(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    for c in sorted(META):
        ps = cases["probes"][c] + cases["omits"][c]
        for d in ps:
            scripts.append(pair(c, d, "data", d, rng.choice(["json", "bytes"])) if rng.random() < 0.15 else load(c, d, rng.choice(["json", "bytes"]), 0))
    ctx.scripts(scripts, "objects")
    ctx.scripts([load(c, d, rng.choice(["json", "bytes"]), 0) if rng.random() < 0.7 else pair(c, d, "data", d, rng.choice(["json", "bytes"])) for c in sorted(META) for d in unusual(ctx, cases, c, False)], "unusual values")
    scripts = []
    for s in P.refs:
        for _ in range(ctx.pick(1, 6)):
            t = P.right(s, True)
            d = P.doc(s, rng.choice([pointer(t["path"]), pointer(t["path"]), "#/nowhere", "https://example.com/"]), t)
            if d:
                scripts.append(pair("AsyncAPI3", d, "data", d, rng.choice(["json", "bytes"]), ["Unified"] if rng.random() < 0.7 else rng.choice([["Tags"], ["Docs"], []])))
    ctx.scripts([verdict(x[0]["arg"], x[0]["procs"], rng.choice(["json", "bytes"])) for x in scripts if x[0].get("procs")], "documents whose class has validators")
    ctx.scripts(scripts, "documents with validators")
    scripts = []
    for _ in range(ctx.pick(200, 4000)):
        g = Gen(rng, names=rng.choice(["wire", "mix"]), opt=rng.choice([0.15, 0.3]), plan=True, bad=0.01 if rng.random() < 0.4 else 0)
        d = g.doc(wrong=0.4)
        scripts.append(pair("AsyncAPI3", d, "data", d, rng.choice(["json", "bytes"]), rng.choice([[], ["Unified"]])))
    ctx.scripts(scripts, "random documents")
    ctx.scripts([pair(c, d, "data", d, rng.choice(["json", "bytes"])) for c in FREE for d in [freeform(rng, c) for _ in range(ctx.pick(15, 300))]], "free-form values")
