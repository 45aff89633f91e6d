"""C01-C06: live objects."""
import itertools

import live
import tlc
import words
from check_data import Parts, probes, hows, in_document, INV
import check_rules
from check_refs import SIMILAR, SPECIAL, near
from codec import *
from gen import Gen, MOREKEYS, EMAIL, BADEMAIL, VERSION, BADVERSION, META, FIELDS, EXT, BADEXT, COLLIDING, KEYCHARS, PLAIN, STR

EXTENDABLE = sorted(c for c in META if META[c]["x"] == "ext")
CLOSED = sorted(c for c in META if META[c]["x"] == "no")
OPEN = sorted(c for c in META if META[c]["x"] == "any")
MAPS = sorted(c for c in META if META[c]["x"] == "map")
MODELS = sorted(c for c in META if META[c]["x"] != "map")

LIFE = "INIT Init\nNEXT Next\nVIEW View\nINVARIANTS Rebuilt\nPROPERTIES Atomic Agrees StaysSound\n"


def machine_cases(ctx, n):
    """histories that reach every transition of the Lifecycle machine"""
    ops = ctx.cases("ops", "Lifecycle", "INIT Init\nNEXT Next\nCONSTRAINT Stop\n")["ops"]
    hists = ctx.emitted("Lifecycle", LIFE + "ACTION_CONSTRAINT Emit\n", long=True)
    start = [{"op": "new", "id": i + 1, "c": c, "arg": O([]), "procs": [], "how": "data"} for i, c in enumerate(("Parameter", "Channel", "Parameters"))]
    if n and n < len(hists):
        hists = ctx.rng.sample(hists, n)
    return [start + [ops[k - 1] for k in h] for h in hists]


def live_histories(ctx, n, length, weights, label, classes=None, starts=(1, 2), **kw):
    rng = ctx.rng
    cs = classes or sorted(META)
    jobs = []
    for k in range(n):
        start = [rng.choice(cs) for _ in range(rng.choice(starts))]
        jobs.append(("%s-%s-%d" % (ctx.prop, ctx.seed, rng.randrange(10**9)), rng.choice(length), start, weights, dict(kw)))
    hs = ctx.pmap(live.history, jobs)
    ctx.judge(hs, label)
    return hs


def each_class(ctx, per, length, weights, label, **kw):
    rng = ctx.rng
    jobs = [("%s-%s-%d" % (ctx.prop, ctx.seed, rng.randrange(10**9)), rng.choice(length), [c], weights, dict(kw)) for c in sorted(META) for _ in range(per)]
    hs = ctx.pmap(live.history, jobs)
    ctx.judge(hs, label)


def value_at(d, w):
    return next((v for k, v in d["v"] if k == w), None)


def steps(ctx, cases, share):
    """a minimal object and one assignment of every probe value"""
    rng = ctx.rng
    out = []
    for c in MODELS:
        m = cases["minimal"][c]
        for f in META[c]["f"]:
            vs = []
            for d in cases["probes"][c]:
                v = value_at(d, f["w"])
                if v is not None and v not in vs:
                    vs.append(v)
            for v in vs:
                if rng.random() < share:
                    out.append([{"op": "step", "c": c, "arg": m, "name": f["py"], "to": v, "how": "data"}])
        for d in (rng.sample(cases["probes"][c], min(len(cases["probes"][c]), 10)) if share < 1 else cases["probes"][c]):
            f = rng.choice(META[c]["f"]) if META[c]["f"] else None      # something else assigned to a probe object
            if f:
                out.append([{"op": "step", "c": c, "arg": d, "name": f["py"], "to": value_at(rng.choice(cases["probes"][c]), f["w"]) or N, "how": "data"}])
    return out


URLS = ["https://example.com/a" + x for x in ("", "/", "/b", "?x=1", "#f", "%20", ".", "a")] + ["https://example.com/A", "http://example.com/a", "https://www.example.com/a", "https://example.org/a", "https://example.com:8443/a", "ftp://example.com/a", "https://example.com/", "urn:a:b", "urn:a:B", "mailto:a@example.com"]
SCALARS = ("str", "strmax", "strbytes", "url", "httpurl", "email", "semver", "rtexpr", "int", "intmin", "intrange", "bool", "lit", "list", "dict")


def rich_steps(ctx, cases, n, near):
    """objects with much in them (lists and maps with several items, out of order); a bad or good value
    assigned, or one close to the present value"""
    rng = ctx.rng
    out = []
    for c in MODELS:
        if c == "Reference":
            continue
        for f in META[c]["f"]:
            as_ = live.alts(f["ty"])
            free = any(a["k"] == "any" for a in as_)
            pool = [value_at(d, f["w"]) for d in cases["probes"][c]]
            pool = [v for v in pool if v is not None]
            for _ in range(n):
                g = Gen(rng, opt=rng.choice([0.5, 0.8]), depth=4, least=2, ext=0.1, reflike=0.15)
                base = g.obj(c, 3, fields={h["py"] for h in META[c]["f"] if rng.random() < 0.6} | {f["py"]})
                out.append([{"op": "step", "c": c, "arg": base, "name": f["py"], "to": rng.choice(pool + [N]), "how": "data"}])
            if near and (free or any(a["k"] in SCALARS for a in as_)):
                for _ in range(near):
                    g = Gen(rng, opt=0.2, depth=4, least=2, ext=0, reflike=0)
                    base = g.obj(c, 3, fields={f["py"]})
                    v = value_at(base, f["w"])
                    if v is None or (v["t"] == "o" and not free and not any(a["k"] == "dict" for a in as_)):
                        continue
                    ks = {a["k"] for a in as_}
                    special = next((pool for kind, pool in (("url", URLS), ("httpurl", URLS), ("email", EMAIL + BADEMAIL), ("semver", VERSION + BADVERSION), ("strbytes", ["", "s", "s" * 160, "s" * 161, "\u00e9" * 80, "\u20ac" * 53 + "s", "\u20ac" * 53 + "ss"])) if kind in ks), None)
                    if special:
                        good = URLS if special is URLS else special[:4]
                        base = O([[k, S(rng.choice(good)) if k == f["w"] else x] for k, x in base["v"]])
                        if special is URLS:
                            for a in URLS[:2]:
                                out += [[{"op": "step", "c": c, "arg": O([[k, S(a) if k == f["w"] else x] for k, x in base["v"]]), "name": f["py"], "to": S(b), "how": "data"}] for b in rng.sample(URLS, 12) + URLS[:2]]
                    for y in (g.alike(v, free)[:6] if not special else map(S, rng.sample(special, 6))):
                        out.append([{"op": "step", "c": c, "arg": base, "name": f["py"], "to": y, "how": "data"}])
    return out


def coupled(ctx, n_steps, n_walks, tail=()):
    """classes whose fields depend on each other: every assignment from sound objects, and walks"""
    G = check_rules.grids(ctx)
    rng = ctx.rng
    chs = {c: check_rules.points(ctx, G[c], ctx.pick(60, 1500) * (4 if c == "SecurityScheme" else 1)) for c in sorted(G)}
    hs = ctx.scripts([check_rules.load(c, check_rules.data(G[c], ch), "data", 0) for c in chs for ch in chs[c]], "coupled fields, combinations")
    out, i = [], 0
    for c in chs:
        valid = check_rules.valid_points(G[c], chs[c], hs[i:i + len(chs[c])])
        i += len(chs[c])
        w = 4 if c == "SecurityScheme" else 1
        out += check_rules.steps(ctx, c, G[c], rng.sample(valid, min(len(valid), n_steps * w)), 1)
        out += [s + [dict(t) for t in tail] for s in check_rules.walks(ctx, c, G[c], valid, n_walks * w, 10)]
    ctx.scripts(out, "coupled fields, assignments")


def C01(ctx):
    cases = probes(ctx)
    ctx.scripts(machine_cases(ctx, ctx.pick(1500, 0)), "every transition of the life cycle")
    ctx.scripts(steps(ctx, cases, ctx.pick(0.4, 1)), "classes x fields x assigned values")
    ctx.scripts(rich_steps(ctx, cases, ctx.pick(2, 16), ctx.pick(0, 3)), "rich objects x fields x assigned values")
    w = {"set": 6, "put": 3, "delete": 1, "dump": 1}
    each_class(ctx, ctx.pick(2, 40), [8, 15], w, "histories of each class", bad=0.7, embed=0.1)
    live_histories(ctx, ctx.pick(60, 1500), [10, 25], w, "histories of documents", classes=["AsyncAPI3", "Components", "Channel", "Operation", "Message", "Server"], bad=0.6, embed=0.1)
    # coupled fields: every sequence of two assignments
    rng = ctx.rng
    scripts = []
    for c in ("Channel", "SecurityScheme", "OAuthFlows", "MessageExample", "AMQPChannelBindings", "SolaceDestination", "IBMMQChannelBindings", "IBMMQMessageBindings", "KafkaServerBindings"):
        g = Gen(rng, opt=0.5, depth=3)
        near = Gen(rng, opt=0.4, depth=3, bad=0.3)
        for f, h in itertools.product(META[c]["f"], repeat=2):
            for _ in range(ctx.pick(1, 12)):
                s = [{"op": "new", "id": 1, "c": c, "arg": g.obj(c, 3), "procs": [], "how": "data"}]
                for x in (f, h, f):
                    s.append({"op": "set", "id": 1, "path": [], "name": x["py"], "arg": rng.choice([N, g.ty(x["ty"], (), 4), near.ty(x["ty"], (), 4)])})
                scripts.append(s)
    ctx.scripts(scripts, "coupled fields")
    coupled(ctx, ctx.pick(8, 300), ctx.pick(6, 200))


def C02(ctx):
    cases = probes(ctx)
    hs = machine_cases(ctx, ctx.pick(800, 0))
    tail = [{"op": "rebuild", "id": i, "path": []} for i in (1, 2, 3)]
    ctx.scripts([h + tail for h in hs], "every transition of the life cycle")
    ctx.scripts(steps(ctx, cases, ctx.pick(0.5, 1)), "classes x fields x assigned values")
    ctx.scripts(rich_steps(ctx, cases, ctx.pick(1, 10), ctx.pick(2, 16)), "rich objects x fields x values close to the present one")
    w = {"set": 8, "put": 3, "delete": 1, "rebuild": 4, "dump": 1, "container": 1}
    each_class(ctx, ctx.pick(2, 40), [10, 16], w, "histories of each class", bad=0.25, embed=0.15, classes=sorted(META))
    live_histories(ctx, ctx.pick(60, 1500), [10, 25], w, "histories of documents", classes=["AsyncAPI3", "Components", "Channel", "Operation", "Message", "Server"], bad=0.2, embed=0.2)
    coupled(ctx, ctx.pick(10, 300), ctx.pick(6, 200), [{"op": "rebuild", "id": 1, "path": []}])
    # two histories that end in the same place
    rng = ctx.rng
    scripts = []
    for c in MODELS:
        if not META[c]["f"]:
            continue
        for _ in range(ctx.pick(2, 30)):
            g = Gen(rng, opt=0.5, depth=3)
            full = g.obj(c, 3)
            m = cases["minimal"][c]
            s = [{"op": "new", "id": 1, "c": c, "arg": full, "procs": [], "how": "data"}, {"op": "new", "id": 2, "c": c, "arg": m, "procs": [], "how": "data"}]
            order = [p for p in full["v"]]
            rng.shuffle(order)
            for w_, v in order:
                f = next((f for f in META[c]["f"] if f["w"] == w_), None)
                s.append({"op": "set", "id": 2, "path": [], "name": f["py"] if f else w_, "arg": v})
            s += [{"op": "eq", "a": 1, "b": 2}, {"op": "dump", "id": 2, "path": []}, {"op": "rebuild", "id": 2, "path": []}]
            scripts.append(s)
    ctx.scripts(scripts, "built step by step and at once")


# ---- collections
def map_values(rng, c):
    """two valid items, a reference and something that is neither, as data"""
    of = META[c]["of"]
    g = Gen(rng, opt=0.3, depth=4, reflike=0)
    two = [g.ty(of, (), 4), g.ty(of, (), 4)]
    refs = any(a.get("c") == "Reference" for a in live.alts(of))
    return {1: two[0], 2: two[1], 3: O([["$ref", S("#/a")]]) if refs else g.ty(of, (), 4), 9: rng.choice([I(7), N, A([]), S("zzz"), A([O([])])])}


def C03(ctx):
    rng = ctx.rng
    hists = ctx.emitted("MapMachine", "INIT MInit\nNEXT MNext\nVIEW View\nINVARIANTS Unique Valid\nPROPERTIES Laws Refines\nACTION_CONSTRAINT Emit\n")
    scripts = []
    for c in MAPS:
        for h in (rng.sample(hists, ctx.pick(110, len(hists)))):
            vs = map_values(rng, c)
            keys = rng.sample(PLAIN + COLLIDING, 3)
            keys = [rng.choice(["a b", "a\n", "", "a/b", "a.b"])] + keys
            s = [{"op": "new", "id": 1, "c": c, "arg": O([]), "procs": [], "how": rng.choice(["data", "kw"])}]
            for o in h:
                s.append({"op": {"look": "look"}.get(o["op"], o["op"]), "id": 1, "path": [], "key": keys[o["k"]], **({"arg": vs[o["v"]]} if o["op"] == "put" else {})})
            s.append({"op": "look", "id": 1, "path": [], "key": rng.choice(keys)})
            if rng.random() < 0.3:
                s.append({"op": "dump", "id": 1, "path": []})
            scripts.append(s)
    ctx.scripts(scripts, "collections x transitions")
    w = {"put": 6, "delete": 3, "look": 4, "dump": 1, "eq": 1, "rebuild": 1}
    live_histories(ctx, ctx.pick(150, 3000), [20, 40], w, "random histories", classes=MAPS, embed=0.2)
    live_histories(ctx, ctx.pick(50, 1200), [20, 40], w, "collections inside documents", classes=["AsyncAPI3", "Components", "Channel", "Operation"], embed=0.2)
    # many keys, in no particular order
    scripts = []
    for c in MAPS:
        vs = map_values(rng, c)
        for n in rng.sample([20, 33, 40, 65, 70, 101, 130, 260], ctx.pick(2, 5)):
            style = rng.choice([lambda i: "k%d" % i, lambda i: "%d" % i, lambda i: "%s%d" % (rng.choice("aAbB-_"), i), lambda i: "x-%d-%s" % (i % 7, "abcdefghij"[i % 10] * (i // 7 + 1))])
            keys = list(dict.fromkeys(style(i) for i in range(n)))
            rng.shuffle(keys)
            few = keys[:rng.choice([10, n, n, n - 3])]
            s = [{"op": "new", "id": 1, "c": c, "arg": O([[k, vs[1]] for k in few]), "procs": [], "how": rng.choice(["data", "kw", "json"])}, {"op": "look", "id": 1, "path": [], "key": rng.choice(keys)}]
            order = rng.sample(keys, min(n, 25))
            for k in order:
                s.append(rng.choice([{"op": "put", "id": 1, "path": [], "key": k, "arg": vs[rng.choice([1, 2, 3])]}, {"op": "del", "id": 1, "path": [], "key": k}]))
                if rng.random() < 0.2:
                    s.append({"op": "look", "id": 1, "path": [], "key": rng.choice([k, rng.choice(keys)])})
            s += [{"op": "look", "id": 1, "path": [], "key": rng.choice(keys)}, {"op": "dump", "id": 1, "path": []}]
            scripts.append(s)
    ctx.scripts(scripts, "many keys")
    # keys like the ones that are there
    scripts = []
    for c in MAPS:
        vs = map_values(rng, c)
        for _ in range(ctx.pick(8, 100)):
            pool = rng.choice(SIMILAR + SPECIAL + [PLAIN, COLLIDING])
            keys = rng.sample(pool, min(len(pool), rng.choice([1, 2, 3])))
            if not all(k and all(ch in KEYCHARS for ch in k) for k in keys):
                continue
            s = [{"op": "new", "id": 1, "c": c, "arg": O([[k, vs[rng.choice([1, 2, 3])]] for k in keys]), "procs": [], "how": rng.choice(["data", "kw", "json"])}]
            for _ in range(rng.choice([6, 12])):
                k = rng.choice(near(rng, rng.choice(keys)) + pool)
                x = rng.random()
                s.append({"op": "look", "id": 1, "path": [], "key": k})
                if x < 0.25:
                    s += [{"op": "del", "id": 1, "path": [], "key": k}, {"op": "look", "id": 1, "path": [], "key": rng.choice(keys)}]
                elif x < 0.5:
                    s += [{"op": "put", "id": 1, "path": [], "key": k, "arg": vs[rng.choice([1, 2, 3])]}, {"op": "look", "id": 1, "path": [], "key": rng.choice(keys)}]
            s.append({"op": "dump", "id": 1, "path": []})
            scripts.append(s)
    ctx.scripts(scripts, "keys like those present")
    # an item looked up, changed, looked up again; the same object under two keys
    scripts = []
    for c in MAPS:
        of = [a["c"] for a in live.alts(META[c]["of"]) if a["k"] == "obj" and a["c"] not in ("Reference", "MultiFormatSchema")]
        for _ in range(ctx.pick(4, 60)):
            g = Gen(rng, opt=rng.choice([0, 0.3, 0.9]), ext=rng.choice([0, 1]), depth=4, reflike=0)
            n = rng.choice([1, 2, 3, 6])
            keys = rng.sample(PLAIN + COLLIDING, n)
            item = lambda: g.obj("Schema", 4) if "Schema" in of else g.ty(META[c]["of"], (), 4)     # nothing is said about schema fields given to multi-format schemas
            s = [{"op": "new", "id": 1, "c": c, "arg": O([[k, item()] for k in keys]), "procs": [], "how": rng.choice(["data", "kw", "json"])}]
            for _ in range(3):
                k = rng.choice(keys)
                x = of[0] if of else "Reference"
                if META[x]["f"]:
                    f = rng.choice(META[x]["f"])
                    s.append({"op": "set", "id": 1, "path": [k], "name": f["py"], "arg": g.ty(f["ty"], (), 4)})
                    if META[x]["x"] == "ext" and rng.random() < 0.5:
                        s.append({"op": "set", "id": 1, "path": [k], "name": rng.choice(EXT), "arg": g.any()})
                s.append({"op": "look", "id": 1, "path": [], "key": rng.choice(keys)})
            s.append({"op": "dump", "id": 1, "path": []})
            if rng.random() < 0.5 and n > 1:
                s += [{"op": "adopt", "id": 1, "edit": {"kind": "share", "from": [keys[0]], "to": [keys[1]]}}, {"op": "look", "id": 1, "path": [], "key": keys[1]}, {"op": "dump", "id": 1, "path": []}]
            scripts.append(s)
    ctx.scripts(scripts, "items changed after lookups")


# ---- embedding
def embeddings():
    """(container class, wire field or None, class placed there, how deep: '' / list / dict)"""
    out = []
    for c in sorted(META):
        for f in ([None] if META[c]["x"] == "map" else META[c]["f"]):
            for a in live.alts(META[c]["of"] if f is None else f["ty"]):
                if a["k"] == "obj":
                    out.append((c, f, a["c"], ""))
                elif a["k"] in ("list", "dict"):
                    for b in live.alts(a["of"]):
                        if b["k"] == "obj":
                            out.append((c, f, b["c"], a["k"]))
    return out


def spoil(rng, g, c, i):
    """in-place changes and assignments to an object, some of which leave it invalid"""
    out = []
    fs = META[c]["f"]
    if META[c]["x"] == "map":
        return [{"op": "put", "id": i, "path": [], "key": rng.choice(["k", "k2"]), "arg": g.ty(META[c]["of"], (), 4)}]
    for f in rng.sample(fs, min(len(fs), 3)):
        out.append({"op": "set", "id": i, "path": [], "name": f["py"], "arg": g.ty(f["ty"], (), 4)})
    return out


def C04(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    ctx.scripts(machine_cases(ctx, ctx.pick(1500, 0)), "every transition of the life cycle")
    scripts = []
    es = embeddings()
    ctx.notes.append("%d places for objects" % len(es))
    for c, f, x, deep in es:
        for way in (["new", "set"] if f is not None else ["new", "put"]):
            for _ in range(ctx.pick(1, 8)):
                g = Gen(rng, opt=0.5, depth=4)
                wrong = rng.random() < 0.12
                xc = rng.choice([k for k in META if k != x and k != "Reference"]) if wrong else x
                obj = {"op": "new", "id": 1, "c": xc, "arg": g.obj(xc, 3), "procs": [], "how": "data"}
                s = [obj]
                if rng.random() < 0.35:
                    s += spoil(rng, g, xc, 1)
                wrap = {"": lambda v: v, "list": lambda v: A([v] if rng.random() < 0.5 else [v, v]), "dict": lambda v: O([["k", v]])}[deep]
                v = wrap(H(1))
                for i in (2, 3):
                    if way == "new":
                        m = O([["k", v]]) if f is None else O([p for p in cases["minimal"][c]["v"] if p[0] != f["w"]] + [[rng.choice([f["w"], f["py"]]), v]])
                        if c == "Channel" and f["w"] == "parameters":
                            m = O(m["v"] + [["address", S("{a}")]])
                        s.append({"op": "new", "id": i, "c": c, "arg": m, "procs": [], "how": rng.choice(["data", "kw"])})
                    else:
                        m = cases["minimal"][c]
                        if c == "Channel" and f["w"] == "parameters":
                            m = O([["address", S("{a}")]])
                        s.append({"op": "new", "id": i, "c": c, "arg": m, "procs": [], "how": "data"})
                        s.append({"op": "put", "id": i, "path": [], "key": "k", "arg": v} if f is None else {"op": "set", "id": i, "path": [], "name": f["py"], "arg": v})
                # later changes on every side
                at = ["k"] if f is None else [f["w"]] + {"": [], "list": [1], "dict": ["k"]}[deep]
                for i, path in rng.sample([(1, []), (2, at), (3, at)], 3):
                    if META[xc]["x"] == "map":
                        s.append({"op": "put", "id": i, "path": path, "key": "later%d" % i, "arg": g.ty(META[xc]["of"], (), 4)})
                    elif META[xc]["f"]:
                        h = rng.choice(META[xc]["f"])
                        s.append({"op": "set", "id": i, "path": path, "name": h["py"], "arg": g.ty(h["ty"], (), 4)})
                        if META[xc]["x"] == "ext":
                            s.append({"op": "set", "id": i, "path": path, "name": "x-later", "arg": I(i)})
                s.append({"op": "dump", "id": rng.choice([1, 2, 3]), "path": []})
                scripts.append(s)
    ctx.scripts(scripts, "places for objects")
    # objects made invalid in place first: every class that can be
    scripts = []
    for c, f, x, deep in es:
        bad = list(spoilt(rng, x, cases))
        for s in (rng.sample(bad, min(len(bad), ctx.pick(1, 6)))):
            wrap = {"": lambda v: v, "list": lambda v: A([v]), "dict": lambda v: O([["k", v]])}[deep]
            v = wrap(H(1))
            m = cases["minimal"][c] if not (f and c == "Channel" and f["w"] == "parameters") else O([["address", S("{a}")]])
            s = s + [{"op": "new", "id": 2, "c": c, "arg": O([]) if f is None else m, "procs": [], "how": "data"},
                     {"op": "put", "id": 2, "path": [], "key": "k", "arg": v} if f is None else {"op": "set", "id": 2, "path": [], "name": f["py"], "arg": v},
                     {"op": "new", "id": 3, "c": c, "arg": O([["k", v]]) if f is None else O([p for p in m["v"] if p[0] != f["w"]] + [[f["py"], v]]), "procs": [], "how": rng.choice(["data", "kw"])}]
            scripts.append(s)
    ctx.scripts(scripts, "invalidated objects")
    w = {"set": 5, "put": 2, "delete": 1, "container": 4, "append": 4, "new": 1, "rebuild": 1, "dump": 1}
    live_histories(ctx, ctx.pick(250, 6000), [15, 30], w, "random pools", starts=(2, 3), embed=0.6, bad=0.15, classes=[x for _, _, x, _ in es] + [c for c, _, _, _ in es])


def spoilt(rng, c, cases):
    """ways to make an object of class c invalid behind the back of its validation"""
    new = lambda d: {"op": "new", "id": 1, "c": c, "arg": d, "procs": [], "how": "data"}
    g = Gen(rng, opt=0.3, depth=4)
    if META[c]["x"] == "map":
        of = META[c]["of"]
        for a in live.alts(of):
            if a["k"] == "obj" and a["c"] != "Reference" and a["c"] != c:
                for s in list(spoilt(rng, a["c"], cases))[:6]:
                    yield [new(O([["k", s[0]["arg"]]]))] + [dict(o, path=["k"] + o["path"]) for o in s[1:]]
        return
    base = cases["minimal"][c]
    for f in META[c]["f"]:
        for a in live.alts(f["ty"]):
            if a["k"] == "list" and a["of"]["k"] != "any":
                d = O([p for p in base["v"] if p[0] != f["w"]] + [[f["w"], A([])]])
                yield [new(d), {"op": "append", "id": 1, "path": [f["w"]], "arg": rng.choice([I(3), N, A([])])}]
            if a["k"] == "obj" and a["c"] in ("OAuthFlow", "SolaceQueue", "SolaceTopic"):
                d = O([p for p in base["v"] if p[0] != f["w"]] + [[f["w"], cases["minimal"][a["c"]]]])
                for h in META[a["c"]]["f"]:
                    yield [new(d), {"op": "set", "id": 1, "path": [f["w"]], "name": h["py"], "arg": N}]
            if a["k"] == "obj" and META[a["c"]]["x"] != "map" and a["c"] not in ("Reference", c):
                inner = cases["minimal"][a["c"]]
                for h in META[a["c"]]["f"]:
                    if any(b["k"] == "list" for b in live.alts(h["ty"])):
                        inner2 = O([p for p in inner["v"] if p[0] != h["w"]] + [[h["w"], A([])]])
                        d = O([p for p in base["v"] if p[0] != f["w"]] + [[f["w"], inner2]])
                        yield [new(d), {"op": "append", "id": 1, "path": [f["w"], h["w"]], "arg": I(3)}]


# ---- names
CHARS = [chr(i) for i in range(0x180)] + list("\u2028\u2029\u200b\ufeff\u0660\u06f1\u0966\uff11\uff41\u2160\u00b2\u0130\u212a\ufb01\U0001d7d8\U0001f600\u3000\u2013\u2010\u02bc\u0301")


def key_ways(rng, P, cases, c, key, vs, n):
    """a key offered to a collection in several ways"""
    ok = [["ok%d" % i, vs] for i in range(rng.choice([0, 0, 1, 3]))]
    at = rng.randrange(len(ok) + 1)
    d = O(ok[:at] + [[key, vs]] + ok[at:])
    new = {"op": "new", "id": 1, "c": c, "arg": O(ok), "procs": [], "how": "data"}
    ways = [lambda: [{"op": "load", "c": c, "arg": d, "how": "data", "full": 0}],
            lambda: [{"op": "load", "c": c, "arg": d, "how": "json", "full": 0}],
            lambda: [{"op": "load", "c": c, "arg": d, "how": "kw", "full": 0}],
            lambda: [new, {"op": "put", "id": 1, "path": [], "key": key, "arg": vs}, {"op": "look", "id": 1, "path": [], "key": key}],
            lambda: [new, {"op": "set", "id": 1, "path": [], "name": "root", "arg": d}],
            lambda: nested(P, rng, c, d)]
    return [w() for w in (ways if n is None else rng.sample(ways, n))]


def nested(P, rng, c, d):
    x = in_document(P, rng, c, d)
    return [{"op": "load", "c": "AsyncAPI3", "arg": x, "how": rng.choice(["data", "json"]), "full": 0}] if x else []


def around(rng, ch):
    """a character alone, first, in the middle, last, twice"""
    a, b = rng.choice(["a", "k1", "-", "_", "A-b", "user"]), rng.choice(["a", "z9", "_", "x"])
    return [ch, ch + a, a + ch + b, a + ch, ch + ch, a + ch + ch]


def C05(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    item = {c: cases["probes"][c] and next(d for d in [O([["k", v]]) for v in map_values(rng, c).values()]) for c in MAPS}
    vs = {c: item[c]["v"][0][1] for c in MAPS}
    for c in MAPS:
        for ch in (CHARS if not ctx.quick else rng.sample(CHARS, 45) + list("aZ09-_") + ["\n", " ", ".", "/", "$", "\r", "\x00", "\x0b", "\x1c", "\x85", "\u00e9", "\u0660", "\u212a", "\u2028"]):
            for key in (around(rng, ch) if not ctx.quick else rng.sample(around(rng, ch), 2)):
                scripts += key_ways(rng, P, cases, c, key, vs[c], ctx.pick(1, 2))
    ctx.scripts([s for s in scripts if s], "collections x characters")
    # all strings over a small alphabet
    scripts = []
    alpha = ["a", "Z", "5", "-", "_", " ", "\n", "."]
    for n in range(ctx.pick(3, 5)):
        for t in itertools.product(alpha, repeat=n):
            scripts += key_ways(rng, P, cases, rng.choice(MAPS), "".join(t), vs[rng.choice(MAPS)] if False else None, 1) if False else key_ways_any(rng, P, cases, "".join(t), vs)
    ctx.scripts([s for s in scripts if s], "short strings")
    scripts = []
    for c in MAPS:
        for key in rng.sample(COLLIDING, ctx.pick(12, len(COLLIDING))) + ["a" * n for n in (1, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 5000)] + ["a" * 300 + x for x in ("\n", " ", "!", "b")] + ["__dict__", "__len__", "root", "model_fields", "copy", "-", "_", "--", "0", "00", "null", "true", ""]:
            scripts += key_ways(rng, P, cases, c, key, vs[c], ctx.pick(1, None))
    ctx.scripts([s for s in scripts if s], "long and colliding names")
    # several keys, the bad one anywhere
    scripts = []
    for c in MAPS:
        for _ in range(ctx.pick(10, 100)):
            n = rng.choice([2, 5, 12])
            keys = rng.sample(PLAIN + COLLIDING, n)
            for _ in range(rng.choice([0, 1, 1, 2])):
                keys[rng.randrange(n)] = rng.choice(["a b", "", "x\n", "\u00e9a", "a.b", "a#", "a\x00"])
            if len(set(keys)) == n:
                scripts.append([{"op": "load", "c": c, "arg": O([[k, vs[c]] for k in keys]), "how": hows(rng), "full": 0}])
    ctx.scripts(scripts, "several keys")
    # very many keys; special values under the bad ones
    scripts = []
    for c in MAPS:
        vals = list(map_values(rng, c).values())[:3]
        refs = any(a.get("c") == "Reference" for a in live.alts(META[c]["of"]))
        if refs:
            vals += [O([["$ref", S(r)]]) for r in ("https://example.com/x", "http://e/", "#/components/schemas/a", "", "other.yaml")]
        for _ in range(ctx.pick(14, 150)):
            n = rng.choice([1, 2, 3, 40, 60, 101, 130, 300]) if rng.random() < 0.7 else max(2, abs(words.number(rng)) % 600)
            keys = ["k%d" % i for i in range(n)]
            if rng.random() < 0.8:
                keys[rng.choice([0, n - 1, n - 1, n - 1, rng.randrange(n)])] = rng.choice(["a b", "", "x\n", "\u00e9a", "a.b", "a#", "a/b", " k", "$ref", "{a}", "a,b"])
            d = O([[k, rng.choice(vals) if n < 50 or k[:1] != "k" else vals[1]] for k in keys])
            scripts.append(rng.choice([[{"op": "load", "c": c, "arg": d, "how": hows(rng), "full": 0}], [{"op": "new", "id": 1, "c": c, "arg": O([]), "procs": [], "how": "data"}, {"op": "set", "id": 1, "path": [], "name": "root", "arg": d}],
                                       [{"op": "new", "id": 1, "c": c, "arg": O([p for p in d["v"] if p[0][:1] == "k" and p[0].isalnum()]), "procs": [], "how": "kw"}] + [{"op": "put", "id": 1, "path": [], "key": k, "arg": v} for k, v in d["v"] if not (k[:1] == "k" and k.isalnum())] + [{"op": "dump", "id": 1, "path": []}]]))
    ctx.scripts(scripts, "very many keys")


def key_ways_any(rng, P, cases, key, vs):
    c = rng.choice(MAPS)
    return key_ways(rng, P, cases, c, key, vs[c], 2)


def ext_ways(rng, P, cases, c, name, v, n):
    m = cases["minimal"][c]
    d = O(m["v"] + [[name, v]]) if rng.random() < 0.5 else O([[name, v]] + m["v"])
    new = {"op": "new", "id": 1, "c": c, "arg": m, "procs": [], "how": "data"}
    ways = [lambda: [{"op": "load", "c": c, "arg": d, "how": "data"}], lambda: [{"op": "load", "c": c, "arg": d, "how": "json"}], lambda: [{"op": "load", "c": c, "arg": d, "how": "kw"}],
            lambda: [{"op": "load", "c": "AsyncAPI3", "arg": x, "how": rng.choice(["data", "json"])}] if (x := in_document(P, rng, c, d)) else []]
    if name and not name.startswith("_"):
        ways.append(lambda: [new, {"op": "set", "id": 1, "path": [], "name": name, "arg": v}, {"op": "dump", "id": 1, "path": []}])
    return [w() for w in (ways if n is None else rng.sample(ways, n))]


SCHEMAWORDS = ["$comment", "$id", "$schema", "$anchor", "$defs", "$vocabulary", "$dynamicRef", "definitions", "if", "then", "else", "not", "allOf", "anyOf", "oneOf", "const", "contains", "additionalItems", "additionalProperties", "patternProperties", "dependencies", "propertyNames",
               "minProperties", "maxProperties", "minItems", "maxItems", "uniqueItems", "minLength", "maxLength", "pattern", "multipleOf", "exclusiveMinimum", "exclusiveMaximum", "minimum", "maximum", "format", "contentEncoding", "contentMediaType", "readOnly", "writeOnly", "nullable",
               "example", "xml", "comment", "cleanup", "min.insync.replicas", "compression.type", "message.timestamp.type", "a b", "\u00e9", "1", "-", ".", "/", "//", "#", "@type", "$"]
WORDLIKE = sorted(tlc.model()["wordLike"])
NOWORD = list("\u00a0\u20ac\u2028\u3000\u2013\u201c\u00a7\u00b1\u00d7\uff0d\uff0e\u200b\ufeff\x85\x7f") + ["\U0001f600"]


def C06(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    g = Gen(rng)
    scripts = []
    ascii_ = [chr(i) for i in range(128)] + WORDLIKE + list(NOWORD)
    names = lambda ch: ["x-" + ch, "x-a" + ch, "x-" + ch + "a", "x-a" + ch + "b", ch + "x-a", "x" + ch + "a", ch + "-a", "X-" + ch]
    for c in EXTENDABLE:
        known = {n for f in META[c]["f"] for n in (f["py"], f["w"])}
        for ch in (ascii_ if not ctx.quick else rng.sample(ascii_, 9) + ["\n", " ", "/", "-"] + rng.sample(WORDLIKE, 2) + rng.sample(NOWORD, 2)):
            for n in (names(ch) if not ctx.quick else rng.sample(names(ch), 2)):
                if n not in known:
                    scripts += ext_ways(rng, P, cases, c, n, g.any(), 1)
        for n in EXT + BADEXT:
            if n not in known:
                scripts += ext_ways(rng, P, cases, c, n, g.any(), 1 if ctx.quick else None)
    ctx.scripts([s for s in scripts if s], "extendable objects x names")
    scripts = []
    for c in CLOSED:
        known = {n for f in META[c]["f"] for n in (f["py"], f["w"])}
        for n in rng.sample(EXT + BADEXT, ctx.pick(8, len(EXT + BADEXT))):
            if n in known:
                continue
            if c == "Reference":
                m = cases["minimal"][c]
                scripts.append([{"op": "load", "c": c, "arg": O(m["v"] + [[n, g.any()]]), "how": hows(rng)}])
            else:
                scripts += ext_ways(rng, P, cases, c, n, g.any(), ctx.pick(2, None))
    ctx.scripts([s for s in scripts if s], "closed objects x names")
    scripts = []
    for c in OPEN:
        known = {n for f in META[c]["f"] for n in (f["py"], f["w"])} | {"$ref", "ref", "root", "schema", "schemaFormat", "schema_format"}
        for n in dict.fromkeys(EXT + BADEXT + [x for x in STR + COLLIDING if x] + SCHEMAWORDS + MOREKEYS):
            if n not in known and (not ctx.quick or n in SCHEMAWORDS or rng.random() < 0.5) and not hasattr(__import__("pydantic").BaseModel, n) and not n.startswith("_"):
                if c == "MultiFormatSchema" and not n.startswith("x-"):
                    continue
                m = cases["minimal"][c]
                for v in [g.any(), rng.choice([g.any(), S("text"), B(True), O([["a", S("b")]])])]:
                    d = O(m["v"] + [[n, v]])
                    x = in_document(P, rng, c, d) if rng.random() < 0.3 else None
                    scripts.append([{"op": "load", "c": "AsyncAPI3", "arg": x, "how": rng.choice(["data", "json"])} if x else {"op": "load", "c": c, "arg": d, "how": hows(rng)}])
    ctx.scripts(scripts, "open objects x names")
    # several extensions at once, kept through assignments of fields
    scripts = []
    for c in EXTENDABLE:
        for _ in range(ctx.pick(4, 60)):
            gg = Gen(rng, opt=0.4, ext=1, depth=4)
            ns = rng.sample(EXT, rng.choice([2, 3, 5]))
            d = O(gg.obj(c, 3)["v"])
            d = O([p for p in d["v"] if not p[0].startswith("x-")] + [[n, gg.any()] for n in ns])
            s = [{"op": "new", "id": 1, "c": c, "arg": d, "procs": [], "how": hows(rng)}]
            for _ in range(3):
                if META[c]["f"] and rng.random() < 0.6:
                    f = rng.choice(META[c]["f"])
                    s.append({"op": "set", "id": 1, "path": [], "name": f["py"], "arg": gg.ty(f["ty"], (), 4)})
                else:
                    s.append({"op": "set", "id": 1, "path": [], "name": rng.choice(EXT + [b for b in BADEXT if b]), "arg": gg.any()})
            s.append({"op": "dump", "id": 1, "path": []})
            scripts.append(s)
    ctx.scripts(scripts, "several extensions")
    # very many extensions, one bad name anywhere
    scripts = []
    for c in EXTENDABLE + CLOSED:
        if c == "Reference":
            continue
        m = cases["minimal"][c]
        for _ in range(ctx.pick(2, 20)):
            n = rng.choice([6, 11, 12, 20, 35, 70, 140])
            names = ["x-" + rng.choice(["n%d", "%d", "z%d", "A%d.b", "_%d"]) % i for i in range(n)]
            rng.shuffle(names)
            if rng.random() < 0.7:
                names[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(["zzz", "aaa", "x_a", "X-a", "x-", "x-a b", "x-n\n", "xn", "-x-a", "y-a"])
            known = {n for f in META[c]["f"] for n in (f["py"], f["w"])}
            names = [x for x in dict.fromkeys(names) if x not in known]
            d = O(m["v"] + [[x, I(i)] for i, x in enumerate(names)])
            scripts.append(rng.choice([[{"op": "load", "c": c, "arg": d, "how": hows(rng)}], [{"op": "load", "c": c, "arg": d, "how": hows(rng)}],
                                       [{"op": "new", "id": 1, "c": c, "arg": m, "procs": [], "how": "data"}] + [{"op": "set", "id": 1, "path": [], "name": x, "arg": I(i)} for i, x in enumerate(names[:25])] + [{"op": "dump", "id": 1, "path": []}]]))
    ctx.scripts(scripts, "very many extensions")


# ---- copies
HOWS = ["deepcopy", "model_copy", "pickle"]
COPY = "INIT Init\nNEXT Next\nVIEW View\nPROPERTIES Copies Apart Checked2\n"


def C07(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    d = ctx.cases("ops", "CopyMachine", "INIT Init\nNEXT Next\nCONSTRAINT Stop\n")
    hists = ctx.emitted("CopyMachine", COPY + "ACTION_CONSTRAINT Emit\n", long=True)
    ctx.notes.append("%d transitions of the copy machine" % len(hists))
    anyhow = lambda o: dict(o, how=rng.choice(HOWS)) if o["op"] == "copy" else o
    ctx.scripts([[anyhow(o) for o in d["start"] + [d["ops"][k - 1] for k in h]] for h in (rng.sample(hists, min(len(hists), 1200)) if ctx.quick else hists)], "every transition of the copy machine")
    # every class, richly filled: copied, changed on both sides, rebuilt
    scripts = []
    for c in sorted(META):
        for way in HOWS:
            for k in range(ctx.pick(2, 25)):
                g = Gen(rng, names="mix", opt=rng.choice([0.2, 0.6, 1.0]), depth=3, ext=0.3)
                s = [{"op": "new", "id": 1, "c": c, "arg": g.obj(c, 3), "procs": [], "how": "data"}]
                if rng.random() < 0.4:
                    s += spoil(rng, g, c, 1)
                if rng.random() < 0.25 and META[c]["x"] != "map":
                    s = rng.choice(list(spoilt(rng, c, cases)) or [s])
                s += [{"op": "copy", "id": 1, "path": [], "to": 2, "how": way}, {"op": "eq", "a": 1, "b": 2}]
                if c == "Reference":
                    s.append({"op": "alike", "a": 1, "b": 2})
                for i in rng.sample([1, 2], 2):
                    s += spoil(rng, g, c, i)
                    if META[c]["x"] == "ext":
                        s.append({"op": "set", "id": i, "path": [], "name": rng.choice(["x-later", "x-a"]), "arg": I(i)})
                    elif META[c]["x"] == "no":
                        s.append({"op": "set", "id": i, "path": [], "name": "x-later", "arg": I(i)})
                s += [{"op": "eq", "a": 1, "b": 2}, {"op": "rebuild", "id": 2, "path": []}, {"op": "dump", "id": 2, "path": []}, {"op": "copy", "id": 2, "path": [], "to": 3, "how": rng.choice(HOWS)}, {"op": "dump", "id": 3, "path": []}]
                scripts.append(s)
    ctx.scripts(scripts, "every class copied")
    # documents with validators
    scripts = []
    for _ in range(ctx.pick(100, 2500)):
        g = Gen(rng, names="wire", opt=rng.choice([0.15, 0.3]), plan=True, ext=0.05)
        procs = rng.choice([["Unified"], ["Unified"], ["Tags"], ["Docs"], ["Tags", "Docs", "Unified"], []])
        data = g.doc(wrong=0)
        s = [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": data, "procs": procs, "how": rng.choice(["data", "kw"])}, {"op": "copy", "id": 1, "path": [], "to": 2, "how": rng.choice(HOWS)}]
        other = g.doc(wrong=0.3)
        for _ in range(rng.choice([2, 4, 6])):
            i = rng.choice([1, 2, 2])
            src = rng.choice([data, other, other])
            f = rng.choice(META["AsyncAPI3"]["f"])
            v = value_at(src, f["w"])
            v = rng.choice([N, N, v]) if v is not None else N
            s.append({"op": "set", "id": i, "path": [], "name": f["py"], "arg": v})
        s += [{"op": "lists", "id": i} for i in (1, 2)] + [{"op": "check", "id": 2, "p": rng.choice(["Unified", "Tags", "Docs"])}, {"op": "copy", "id": 2, "path": [], "to": 3, "how": rng.choice(HOWS)}, {"op": "set", "id": 3, "path": [], "name": "operations", "arg": O([["zz", O([["action", S("send")], ["channel", O([["$ref", S("#/channels/zz")]])]])]])}, {"op": "dump", "id": 3, "path": []}]
        scripts.append(s)
    ctx.scripts(scripts, "documents with validators")
    w = {"set": 6, "put": 3, "delete": 1, "append": 2, "copy": 4, "container": 2, "rebuild": 1, "dump": 1, "eq": 2}
    each_class(ctx, ctx.pick(1, 20), [10, 16], w, "histories of each class", bad=0.2, embed=0.15)
    live_histories(ctx, ctx.pick(80, 2000), [15, 25], w, "random pools", starts=(1, 2), bad=0.2, embed=0.3)
