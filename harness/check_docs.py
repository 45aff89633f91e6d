"""F01-F03: processors of documents, the builder, the validators of the package."""
import itertools

from check_data import Parts, probes, hows
from check_refs import random_docs, Places
from codec import *
from docs import *
import real
from gen import Gen, META, FIELDS, URL, HTTPURL, EXT

OWN = ["Log-a", "Log-b", "Title-x", "Title-y", "Title-zz", "Chan-c", "Chan-d", "Drop-c", "Fail-f", "Veto-x", "Veto-y", "Need-c", "Need-d", "Bad-b", "Make-i", "Make-j", "Nest-n"]
CFG = "CONSTANTS\nSteps = %d\nLists <- %s\nINIT Init\nNEXT Next\nVIEW View\n"


def machine_scripts(ctx, steps, lists, n):
    ex = ctx.cases(lists, "ProcMachine", "CONSTANTS\nSteps = 0\nLists <- %s\nINIT Init\nNEXT Next\nCONSTRAINT Stop\n" % lists)
    hists = ctx.emitted("ProcMachine", CFG % (steps, lists) + "INVARIANTS InOrder Visible Basic Result\nACTION_CONSTRAINT Emit\n", long=True)
    rng = ctx.rng
    if n and n < len(hists):
        hists = rng.sample(hists, n)
    out = []
    for h in hists:
        s, cur = [], 1
        for st in h:
            k = st[0]
            if k == "new":
                s.append({"op": "pnew", "id": 1, "arg": ex["datas"][st[1] - 1], "convs": st[2], "vals": st[3], "how": rng.choice(["data", "kw"]), "given": rng.randrange(2)})
            elif k == "set":
                n_, v = ex["sets"][st[1] - 1]
                s.append({"op": "pset", "id": cur, "name": n_, "arg": v})
            elif k in ("convs", "vals"):
                s.append({"op": "plist", "id": cur, "which": k, "list": ex["lists"][st[1] - 1]})
            elif k == "again":
                s.append({"op": "pagain", "id": cur, "to": cur + 1})
                cur += 1
            elif k == "nested":
                s.append({"op": "set", "id": cur, "path": ["info"], "name": "title", "arg": S("nested")})
        out.append(s)
    return out


def some(rng, pool, ns=(0, 0, 1, 1, 2, 3, 5)):
    return [rng.choice(pool) for _ in range(rng.choice(ns))]


def random_history(rng, length):
    """a document with random processors, random data, random assignments"""
    g = Gen(rng, opt=rng.choice([0.1, 0.25]), plan=True, depth=5)
    doc = g.doc(wrong=0.1)
    pool = OWN + ["Unified"] * 2
    quiet = [p for p in OWN if p.split("-")[0] in ("Log", "Title", "Chan", "Drop", "Make", "Nest")] + ["Unified"]
    p = pool if rng.random() < 0.3 else quiet
    s = [{"op": "pnew", "id": 1, "arg": doc, "convs": some(rng, p), "vals": some(rng, p), "how": rng.choice(["data", "kw"]), "given": 1}]
    cur = 1
    for _ in range(length):
        x = rng.random()
        if x < 0.5:
            f = rng.choice(META["AsyncAPI3"]["f"])
            bad = Gen(rng, opt=0.2, depth=3, bad=rng.choice([0, 0, 0.1]))
            s.append({"op": "pset", "id": cur, "name": f["py"], "arg": rng.choice([N, bad.ty(f["ty"], (), 4), bad.ty(f["ty"], (), 4)])})
        elif x < 0.58:
            s.append({"op": "pset", "id": cur, "name": rng.choice(EXT + ["zzz", "y-a"]), "arg": g.any()})
        elif x < 0.75:
            s.append({"op": "plist", "id": cur, "which": rng.choice(["convs", "vals"]), "list": some(rng, rng.choice([pool, quiet]))})
        elif x < 0.82:
            s.append({"op": "pagain", "id": cur, "to": cur + 1})
            cur += rng.randrange(2)
        elif x < 0.9:
            s.append({"op": "set", "id": cur, "path": ["info"], "name": rng.choice(["title", "version", "description", "x-a"]), "arg": rng.choice([S("t"), S("x"), I(3)])})
        elif x < 0.95:
            s.append({"op": "attach", "id": cur, "which": rng.choice(["convs", "vals"]), "p": rng.choice(quiet)})
        else:
            s.append({"op": "dump", "id": cur, "path": []})
    return s


def F01(ctx):
    rng = ctx.rng
    ctx.scripts(machine_scripts(ctx, 2, "Some", ctx.pick(2500, 0)), "every transition of the processor machine")
    if not ctx.quick:
        ctx.scripts(machine_scripts(ctx, 3, "Few", 30000), "longer histories of the processor machine")
    # every pair of lists of up to two (three) processors
    scripts = []
    lists = [list(t) for n in range(3) for t in itertools.product(["Log-a", "Title-x", "Veto-x", "Fail-f", "Chan-c", "Need-c", "Make-i"], repeat=n)]
    pairs = list(itertools.product(lists, lists))
    for c, v in (rng.sample(pairs, 500) if ctx.quick else pairs):
        d = O([["info", O([["title", S("t")], ["version", S("1")]])], ["channels", O([])]])
        s = [{"op": "pnew", "id": 1, "arg": d, "convs": c, "vals": v, "how": rng.choice(["data", "kw"])}]
        s.append({"op": "pset", "id": 1, "name": rng.choice(["id", "x-a", "channels"]), "arg": N})
        s.append({"op": "pset", "id": 1, "name": "info", "arg": O([["title", S(rng.choice("ux"))], ["version", S("1")]])})
        scripts.append(s)
    ctx.scripts(scripts, "pairs of lists")
    # long lists; the last ones matter
    scripts = []
    quiet = ["Log-a", "Log-b", "Log-a", "Log-b", "Chan-c", "Drop-c", "Title-x", "Title-y", "Make-i", "Nest-n"]
    for _ in range(ctx.pick(40, 800)):
        d = O([["info", O([["title", S("t")], ["version", S("1")]])], ["channels", O([])]])
        n = rng.choice([4, 6, 9, 11, 17, 21, 33, 40, 65])
        ls = [some(rng, quiet if n < 12 else quiet[:6], (n,)) for _ in range(2)]
        if rng.random() < 0.5:
            rng.choice(ls)[rng.choice([n - 1, n - 1, rng.randrange(n)])] = rng.choice(["Fail-f", "Veto-x", "Need-d", "Unified"])
        if rng.random() < 0.6:
            ls[rng.randrange(2)] = some(rng, quiet)
        s = [{"op": "pnew", "id": 1, "arg": d, "convs": ls[0], "vals": ls[1], "how": rng.choice(["data", "kw"])}]
        if rng.random() < 0.5:
            s = [{"op": "pnew", "id": 1, "arg": d, "convs": [], "vals": []}, {"op": "plist", "id": 1, "which": "convs", "list": ls[0]}, {"op": "plist", "id": 1, "which": "vals", "list": ls[1]}]
        s += [{"op": "pset", "id": 1, "name": rng.choice(["id", "x-a", "channels"]), "arg": N}, {"op": "pagain", "id": 1, "to": 2}]
        scripts.append(s)
    ctx.scripts(scripts, "long lists")
    ctx.scripts([random_history(rng, rng.choice([4, 10])) for _ in range(ctx.pick(250, 6000))], "random histories")
    # basic validation fails: nothing may run
    cases = probes(ctx)
    P = Parts(ctx)
    scripts = []
    from check_data import in_document
    for c in sorted(META):
        ps = cases["probes"][c]
        for d in rng.sample(ps, min(len(ps), ctx.pick(3, 40))):
            x = in_document(P, rng, c, d)
            if x:
                scripts.append([{"op": "pnew", "id": 1, "arg": x, "convs": some(rng, ["Log-a", "Log-b"], (1, 2)), "vals": some(rng, ["Log-a", "Log-c"], (1, 2)), "how": rng.choice(["data", "kw"])}])
                scripts.append([{"op": "pnew", "id": 1, "arg": O([["info", O([["title", S("t")], ["version", S("1")]])]]), "convs": ["Log-a"], "vals": ["Log-b"]}]
                               + [{"op": "pset", "id": 1, "name": FIELDS_W[k]["py"] if k in FIELDS_W else k, "arg": v} for k, v in x["v"]])
    ctx.scripts(scripts, "valid and invalid parts")


FIELDS_W = {f["w"]: f for f in META["AsyncAPI3"]["f"]}
INFO = ["title", "version", "description", "terms_of_service", "contact", "license", "tags", "external_docs"]
COLLECTIONS = [f for f in META["Components"]["f"]]


def item_for(rng, c):
    g = Gen(rng, opt=0.2, depth=4, reflike=0)
    return g.ty(META[c]["of"], (), 4)


def build_args(rng, bad=0.0):
    g = Gen(rng, opt=0.3, depth=4, bad=bad, reflike=0)
    args = []
    for n in INFO:
        f = next(f for f in META["Info"]["f"] if f["py"] == n)
        if rng.random() < 0.35:
            args.append([n, g.ty(f["ty"], (), 4) if rng.random() < 0.85 or f["req"] else N])
    return args


def build_kw(rng, bad=0.0):
    g = Gen(rng, opt=0.15, depth=4, bad=bad, reflike=0)
    kw = []
    for f in META["AsyncAPI3"]["f"]:
        if rng.random() < 0.2:
            kw.append([rng.choice([f["w"], f["py"]]), g.ty(f["ty"], (), 3)])
    if rng.random() < 0.15:
        kw.append([rng.choice(EXT + (["zzz"] if bad else [])), g.any()])
    return kw


def build(rng, i, bad=0.0, plain=0.3):
    args = build_args(rng, bad) if rng.random() > plain else []
    kw = build_kw(rng, bad) if rng.random() > plain else []
    own = rng.random()
    return {"op": "build", "id": i, "args": args, "kw": kw, "pos": rng.randrange(2),
            "convs": ["default"] if own < 0.7 else some(rng, ["Log-a", "Title-x", "Chan-c"], (0, 1, 2)),
            "vals": ["default"] if own < 0.5 or own > 0.8 else some(rng, ["Log-b", "Veto-x", "Unified"], (0, 1, 2))}


def change(rng, i):
    """a change somewhere in a built document"""
    x = rng.random()
    g = Gen(rng, opt=0.2, depth=4, reflike=0)
    if x < 0.45:
        f = rng.choice(COLLECTIONS)
        c = next(a["c"] for a in f["ty"]["alts"] if a["k"] == "obj")
        return {"op": "put", "id": i, "path": ["components", f["w"]], "key": rng.choice(["a", "b", "items"]), "arg": item_for(rng, c)}
    if x < 0.6:
        n = rng.choice(["servers", "channels", "operations"])
        return {"op": "put", "id": i, "path": [n], "key": "a", "arg": item_for(rng, {"servers": "Servers", "channels": "Channels", "operations": "Operations"}[n])}
    if x < 0.7:
        f = rng.choice(META["Info"]["f"])
        return {"op": "set", "id": i, "path": ["info"], "name": f["py"], "arg": g.ty(f["ty"], (), 4)}
    if x < 0.76:
        return {"op": "set", "id": i, "path": ["components"], "name": rng.choice(COLLECTIONS)["py"], "arg": N}
    if x < 0.82:
        return {"op": "attach", "id": i, "which": rng.choice(["convs", "vals"]), "p": rng.choice(["Log-k", "Fail-k", "Title-k"])}
    if x < 0.9:
        return {"op": "pset", "id": i, "name": rng.choice(["x-a", "id", "servers", "components"]), "arg": rng.choice([N, O([]), S("urn:a:b")])}
    return {"op": "pset", "id": i, "name": rng.choice(["servers", "channels"]), "arg": O([["z", O([["$ref", S(rng.choice(["#/nowhere", "https://example.com/", "#/components/servers/a"]))]])]])}


FRESH = {"op": "build", "args": [], "kw": [], "convs": ["default"], "vals": ["default"]}


def build_scripts(ctx, steps, docs, n):
    """the histories of the machine of built documents; afterwards every document is looked at and tried"""
    const = "CONSTANTS\nSteps = %d\nDocs = %d\nINIT Init\nNEXT Next\n"
    ex = ctx.cases("", "BuildMachine", const % (0, 0) + "CONSTRAINT Stop\n")
    ctx.check_model("BuildMachine", const % (steps - 1 if ctx.quick else steps, docs) + "VIEW View\nINVARIANTS Independent RefsChecked AllEmpty\n", workers=ctx.pick(1, 3), long=True)
    hists = ctx.bg.submit(ctx.emitted, "BuildMachine", const % (steps, docs) + "VIEW View\nACTION_CONSTRAINT Emit\n", long=True)
    return lambda: build_histories(ctx, ex, hists.result(), n)


def build_histories(ctx, ex, hists, n):
    rng = ctx.rng
    if n and n < len(hists):
        hists = rng.sample(hists, n)
    out = []
    for h in hists:
        s, ids, k = [], [], 0
        for o in h:
            if o[0] == "build":
                k += 1
                v = ex["variants"][o[1] - 1]
                s.append({"op": "build", "id": k, "args": v["args"], "kw": v["kw"], "convs": v["convs"], "vals": v["vals"], "pos": rng.randrange(2)})
                ids.append(k)
            else:
                i, x = ids[o[1] - 1], o[2] - 1
                p = ex["places"][x] if o[0] in ("put", "del") else None
                s.append({"put": lambda: {"op": "put", "id": i, "path": p["path"], "key": p["key"], "arg": p["arg"]},
                          "del": lambda: {"op": "del", "id": i, "path": p["path"], "key": p["key"]},
                          "attach": lambda: {"op": "attach", "id": i, "which": ex["procs"][x][0], "p": ex["procs"][x][1]},
                          "set": lambda: {"op": "pset", "id": i, "name": ex["sets"][x][0], "arg": ex["sets"][x][1]},
                          "title": lambda: {"op": "set", "id": i, "path": ["info"], "name": "title", "arg": S("changed")}}[o[0]]())
        # a refused build leaves no document behind; only complete histories are continued
        if not any(o[0] == "build" and o[1] == 4 for o in h):
            s += [x for i in ids for x in ({"op": "lists", "id": i}, {"op": "dump", "id": i, "path": []})]
            s += [dict(FRESH, id=k + 1), {"op": "lists", "id": k + 1}, {"op": "dump", "id": k + 1, "path": []}]
            s += [{"op": "pset", "id": i, "name": "channels", "arg": ex["dangling"]} for i in ids + [k + 1]]
        else:
            s += [dict(FRESH, id=k + 1), {"op": "lists", "id": k + 1}]
        out.append(s)
    return out


def F02(ctx):
    rng = ctx.rng
    machine = build_scripts(ctx, 3, 3, ctx.pick(900, 0))
    # each collection: filled in one document, the next one is fresh; both checked for references
    scripts = []
    for f in COLLECTIONS:
        c = next(a["c"] for a in f["ty"]["alts"] if a["k"] == "obj")
        for way in range(ctx.pick(3, 10)):
            v = item_for(rng, c)
            s = [dict(FRESH, id=1), dict(FRESH, id=2)]
            p = {"op": "put", "id": 1, "path": ["components", f["w"]], "key": "a", "arg": v}
            s += [p, dict(FRESH, id=3), {"op": "lists", "id": 3}, dict(p, id=3, key="b"), {"op": "del", "id": 1, "path": ["components", f["w"]], "key": "a"}, dict(FRESH, id=4), {"op": "dump", "id": 4, "path": []}]
            scripts.append(s)
    for n, c in (("servers", "Servers"), ("channels", "Channels"), ("operations", "Operations")):
        for way in range(ctx.pick(4, 20)):
            s = [dict(FRESH, id=1), {"op": "put", "id": 1, "path": [n], "key": "a", "arg": item_for(rng, c)}, dict(FRESH, id=2), {"op": "dump", "id": 2, "path": []}, {"op": "eq", "a": 1, "b": 2}]
            scripts.append(s)
    # reference checking is active
    P = Parts(ctx)
    for slot in (rng.sample(P.refs, ctx.pick(70, len(P.refs)))):
        if "variables" in slot["path"]:
            pass
        for ref in ("#/nowhere/at/all", "https://example.com/", "other.yaml"):
            d = fill(slot["d"], ref)
            top = slot["path"][0]
            v = next(x for k, x in d["v"] if k == top)
            scripts.append([{"op": "build", "id": 1, "args": [], "kw": [[FIELDS_W[top]["py"], v]], "convs": ["default"], "vals": ["default"]},
                            dict(FRESH, id=2), {"op": "pset", "id": 2, "name": FIELDS_W[top]["py"], "arg": v}])
    ctx.scripts(scripts, "collections, reference checking")
    # arguments and overrides
    ctx.scripts([[build(rng, 1, bad=rng.choice([0, 0, 0.05]), plain=0.15), {"op": "lists", "id": 1}, {"op": "dump", "id": 1, "path": []}, dict(FRESH, id=2)] for _ in range(ctx.pick(600, 15000))], "arguments and overrides")
    # one argument each, one override each
    scripts = []
    g = Gen(rng, opt=0.4, depth=4, reflike=0)
    cases = probes(ctx)
    for f in META["Info"]["f"]:
        for d in cases["probes"]["Info"]:
            v = next((v for k, v in d["v"] if k == f["w"]), None)
            if v is not None and (f["py"] not in ("title", "version") or d != cases["minimal"]["Info"]):
                scripts.append([{"op": "build", "id": 1, "args": [[f["py"], v]], "kw": [], "convs": ["default"], "vals": ["default"], "pos": rng.randrange(2)}])
    for f in META["AsyncAPI3"]["f"]:
        for d in cases["probes"]["AsyncAPI3"]:
            v = next((v for k, v in d["v"] if k == f["w"]), None)
            if v is not None:
                for n in {f["w"], f["py"]}:
                    scripts.append([{"op": "build", "id": 1, "args": [], "kw": [[n, v]], "convs": ["default"], "vals": ["default"]}])
    ctx.scripts(scripts, "single arguments")
    # live objects as arguments
    scripts = []
    for n, c in (("contact", "Contact"), ("license", "License"), ("external_docs", "ExternalDocumentation"), ("tags", "Tag")):
        for _ in range(ctx.pick(8, 100)):
            s = [{"op": "new", "id": 9, "c": c, "arg": g.obj(c, 3), "procs": [], "how": "data"}]
            v = A([H(9)]) if n == "tags" else H(9)
            s += [{"op": "build", "id": i, "args": [[n, v]], "kw": [], "convs": ["default"], "vals": ["default"]} for i in (1, 2)]
            f = rng.choice(META[c]["f"])
            s.append({"op": "set", "id": 9, "path": [], "name": f["py"], "arg": g.ty(f["ty"], (), 4)})
            s.append({"op": "set", "id": 1, "path": ["info"] + (["tags", 1] if n == "tags" else [next(x["w"] for x in META["Info"]["f"] if x["py"] == n)]), "name": f["py"], "arg": g.ty(f["ty"], (), 4)})
            s.append(dict(FRESH, id=3))
            scripts.append(s)
    for n in ("info", "servers", "channels", "operations", "components"):
        c = next(a["c"] for a in (FIELDS_W[n]["ty"].get("alts") or [FIELDS_W[n]["ty"]]) if a["k"] == "obj")
        for _ in range(ctx.pick(8, 100)):
            s = [{"op": "new", "id": 9, "c": c, "arg": Gen(rng, opt=0.2, depth=3, reflike=0).obj(c, 3), "procs": [], "how": "data"}]
            s += [{"op": "build", "id": i, "args": [], "kw": [[n, H(9)]], "convs": ["default"], "vals": ["default"]} for i in (1, 2)]
            if META[c]["x"] == "map":
                s += [{"op": "put", "id": 9, "path": [], "key": "later", "arg": item_for(rng, c)}, {"op": "put", "id": 1, "path": [n], "key": "later2", "arg": item_for(rng, c)}]
            else:
                f = rng.choice(META[c]["f"])
                s += [{"op": "set", "id": 9, "path": [], "name": f["py"], "arg": g.ty(f["ty"], (), 4)}, {"op": "set", "id": 1, "path": [n], "name": f["py"], "arg": g.ty(f["ty"], (), 4)}]
            scripts.append(s + [dict(FRESH, id=3)])
    ctx.scripts(scripts, "live objects as arguments")
    # several documents changed in turns, new ones in between
    scripts = []
    for _ in range(ctx.pick(250, 6000)):
        s, k = [dict(FRESH, id=1)], 1
        for _ in range(rng.choice([5, 10, 16])):
            if rng.random() < 0.3:
                k += 1
                s.append(build(rng, k, plain=0.7) if rng.random() < 0.3 else dict(FRESH, id=k))
                s.append({"op": "lists", "id": k})
            else:
                s.append(change(rng, rng.randrange(1, k + 1)))
        scripts.append(s + [dict(FRESH, id=k + 1), {"op": "lists", "id": k + 1}])
    ctx.scripts(scripts, "several documents in turns")
    ctx.scripts(machine(), "every transition of the machine of built documents")


KINDS = [n for n in real.VALIDATORS if n.endswith("RefValidator")]
JUDGES = ["Unified", "Tags", "Docs"]


def F03(ctx):
    rng = ctx.rng
    scripts = []
    cfg = "CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nINVARIANTS Conjunction Reasons Emit\n" % ctx.pick(2, 3)
    found = [x for x in ctx.emitted("Combine", cfg)]
    for x in found if not ctx.quick else rng.sample(found, min(len(found), 2500)):
        d, l = x["d"], [rng.choice(KINDS) if p in KINDS else p for p in x["list"]]
        scripts.append(attached(d, l, rng) if rng.random() < 0.5 else called(d, l, rng))
    ctx.scripts(scripts, "every document with every list of the machine")
    scripts = []
    P = Places(ctx)
    for k in KINDS:                                       # the validators of single kinds refuse nothing, whatever stands wherever
        for s in rng.sample(P.refs, ctx.pick(8, 80)):
            d = fill(s["d"], rng.choice(["#/nowhere", "x", "", "#", "https://example.com/", "#/components/tags/x", "#/info"]))
            scripts.append(called(d, [k], rng) if rng.random() < 0.5 else attached(d, [k], rng))
    ctx.scripts(scripts, "validators of single kinds")
    # any document, any validators: verdicts in any order, the document stays what it is
    scripts = []
    for _ in range(ctx.pick(250, 5000)):
        g = Gen(rng, opt=rng.choice([0.15, 0.3]), plan=True, ext=0.02)
        d = g.doc(wrong=rng.choice([0, 0, 0.2, 1]))
        l = [rng.choice(JUDGES) if rng.random() < 0.6 else rng.choice(KINDS) for _ in range(rng.choice([1, 2, 3, 5]))]
        scripts.append(attached(d, l, rng) if rng.random() < 0.4 else called(d, l, rng))
    ctx.scripts(scripts, "random documents")
    # all of them at once, and one instance for several documents
    scripts = []
    for _ in range(ctx.pick(40, 600)):
        ds = [Gen(rng, opt=0.2, plan=True).doc(wrong=w) for w in (0, rng.choice([0, 0.5]), 0)]
        every = JUDGES + KINDS
        rng.shuffle(every)
        s = [{"op": "new", "id": i + 1, "c": "AsyncAPI3", "arg": d, "procs": every if rng.random() < 0.3 else [], "how": rng.choice(["data", "kw"])} for i, d in enumerate(ds)]
        scripts.append(s + [{"op": "check", "id": rng.randrange(1, 4), "p": rng.choice(every), "inst": rng.choice([0, 0, 1])} for _ in range(8)])
    ctx.scripts(scripts, "several documents")


def attached(d, procs, rng):
    return [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": procs, "how": rng.choice(["data", "data", "kw", "json"])},
            {"op": "set", "id": 1, "path": [], "name": rng.choice(["id", "x-a"]), "arg": N}, {"op": "dump", "id": 1, "path": []}]


def called(d, procs, rng):
    return [{"op": "new", "id": 1, "c": "AsyncAPI3", "arg": d, "procs": [], "how": rng.choice(["data", "kw"])}] + [
        {"op": "check", "id": 1, "p": p, "inst": rng.choice([0, 0, 1])} for p in procs] + [{"op": "dump", "id": 1, "path": []}]
