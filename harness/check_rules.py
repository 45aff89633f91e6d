"""E01-E05: rules that couple fields, limits, formatted strings."""
import itertools

from check_data import Parts, probes, hows, in_document, load
from codec import *
from gen import Gen, META, FIELDS, URL, EMAIL, BADEMAIL, VERSION, BADVERSION, RTEXPR, BADRTEXPR, F

ABSENT = {"t": "absent", "v": ""}
FIELD = {c: {f["w"]: f for f in META[c]["f"]} for c in META}


def grids(ctx):
    ctx.check_model("Rules", "INIT RInit\nNEXT RNext\nINVARIANT TablesAgree\n", workers=2)
    G = ctx.cases("grids", "Rules", "INIT RInit\nNEXT RNext\nCONSTRAINT Stop\n")["grids"]
    GRIDDED.update({c: {w for w, _ in g} for c, g in G.items()})
    return G


def data(grid, choice):
    return O([[w, v] for (w, _), v in zip(grid, choice) if v["t"] != "absent"])


def points(ctx, grid, n=None):
    """all combinations, or so many of them"""
    dims = [vs for _, vs in grid]
    total = 1
    for d in dims:
        total *= len(d)
    if n is None or n >= total:
        return [list(x) for x in itertools.product(*dims)]
    seen, out = set(), []
    while len(out) < n:
        x = tuple(ctx.rng.randrange(len(d)) for d in dims)
        if x not in seen:
            seen.add(x)
            out.append([d[i] for d, i in zip(dims, x)])
    return out


def pyname(c, w):
    return FIELD[c][w]["py"] if w in FIELD[c] else w


def dressed(rng, c, d, p):
    """other valid fields of the class beside"""
    if rng.random() > p:
        return d
    have = {pyname(c, k) for k, _ in d["v"]} | {k for k, _ in d["v"]}
    coupled = {f["py"] for f in META[c]["f"] if f["w"] in GRIDDED.get(c, ())}
    g = Gen(rng, opt=rng.choice([0.3, 0.9]), ext=0.2, depth=4)
    more = g.obj(c, 4, fields={f["py"] for f in META[c]["f"] if f["py"] not in coupled and rng.random() < g.opt})
    return O(d["v"] + [[k, v] for k, v in more["v"] if k not in have and pyname(c, k) not in coupled and pyname(c, k) not in have])


GRIDDED = {}


def renamed(rng, c, d):
    """some fields under their Python names, in some order"""
    vs = [[pyname(c, k) if rng.random() < 0.3 else k, v] for k, v in d["v"]]
    if rng.random() < 0.4:
        rng.shuffle(vs)
    return O(vs)


def steps(ctx, c, grid, choices, share):
    """from each of these objects every assignment of one field to every value of the grid"""
    rng = ctx.rng
    out = []
    for ch in choices:
        d = data(grid, ch)
        for (w, vs), cur in zip(grid, ch):
            for v in vs:
                if v["t"] == "absent":
                    v = N
                if v != cur and rng.random() < share:
                    out.append([{"op": "step", "c": c, "arg": d, "name": pyname(c, w), "to": v, "how": "data"}])
    return out


def sequences(ctx, c, grid, n, length):
    """a living object taken through random assignments of grid values, with every field observed"""
    rng = ctx.rng
    out = []
    for _ in range(n):
        ch = [rng.choice(vs) for _, vs in grid]
        s = [{"op": "new", "id": 1, "c": c, "arg": data(grid, ch), "procs": [], "how": hows(rng)}]
        for _ in range(length):
            w, vs = rng.choice(grid)
            v = rng.choice(vs)
            s.append({"op": "set", "id": 1, "path": [], "name": pyname(c, w), "arg": N if v["t"] == "absent" else v})
        out.append(s)
    return out


def walks(ctx, c, grid, valid, n, length):
    """the same, starting from objects known to be acceptable"""
    rng = ctx.rng
    out = []
    for _ in range(n if valid else 0):
        s = [{"op": "new", "id": 1, "c": c, "arg": data(grid, rng.choice(valid)), "procs": [], "how": hows(rng)}]
        for _ in range(length):
            w, vs = rng.choice(grid)
            v = rng.choice(vs)
            s.append({"op": "set", "id": 1, "path": [], "name": pyname(c, w), "arg": N if v["t"] == "absent" else v})
        s.append({"op": "dump", "id": 1, "path": []})
        out.append(s)
    return out


def valid_points(grid, choices, hs):
    """those the real code accepted (the specification has judged each)"""
    return [ch for ch, h in zip(choices, hs) if h and h[0].get("r") == "ok"]


def in_parent(P, rng, c, d, f=None):
    """the object as part of a document; None where no part of a document is of that kind"""
    x = in_document(P, rng, c, d)
    return [{"op": "load", "c": "AsyncAPI3", "arg": x, "how": rng.choice(["data", "json", "kw"]), "full": 0}] if x else None


def parents(c):
    """classes with a field (or items) of this kind"""
    import live
    out = []
    for k in sorted(META):
        for f in ([None] if META[k]["x"] == "map" else META[k]["f"]):
            for a in live.alts(META[k]["of"] if f is None else f["ty"]):
                if a["k"] == "obj" and a["c"] == c:
                    out.append((k, f, ""))
                elif a["k"] in ("list", "dict"):
                    for b in live.alts(a["of"]):
                        if b["k"] == "obj" and b["c"] == c:
                            out.append((k, f, a["k"]))
    return out


def in_each_parent(ctx, cases, c, d):
    """the object inside every class that can hold it, loaded and assigned"""
    rng = ctx.rng
    out = []
    for k, f, deep in parents(c):
        v = {"": d, "list": A([d]), "dict": O([["k", d]])}[deep]
        if f is None:
            out.append([{"op": "load", "c": k, "arg": O([["k", d]]), "how": hows(rng), "full": 0}])
            out.append([{"op": "new", "id": 1, "c": k, "arg": O([]), "procs": [], "how": "data"}, {"op": "put", "id": 1, "path": [], "key": "k", "arg": v}])
            continue
        m = cases["minimal"][k]
        m = O([p for p in m["v"] if p[0] != f["w"]])
        out.append([{"op": "load", "c": k, "arg": O(m["v"] + [[f["w"], v]]), "how": hows(rng), "full": 0}])
        out.append([{"op": "step", "c": k, "arg": cases["minimal"][k], "name": f["py"], "to": v, "how": "data"}])
    return out


def cover(ctx, classes, n_points, n_steps, n_walks, n_nested, few=None):
    """grids, assignments, walks and nestings for some classes"""
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    G = grids(ctx)
    for c in classes:
        grid = G[c]
        chs = points(ctx, grid, n_points)
        if few is not None and n_points is not None:
            chs += [ch for ch in points(ctx, grid) if sum(v["t"] != "absent" for v in ch) <= few and ch not in chs]
        hs = ctx.scripts([load(c, renamed(rng, c, dressed(rng, c, data(grid, ch), 0.5)), hows(rng), 0) for ch in chs], "%s: combinations" % c)
        valid = valid_points(grid, chs, hs)
        some = valid if n_steps is None else rng.sample(valid, min(len(valid), n_steps))
        ss = steps(ctx, c, grid, some, 1)
        ss += walks(ctx, c, grid, valid, n_walks, 12)
        for ch in rng.sample(chs, min(len(chs), n_nested)) + (rng.sample(valid, min(len(valid), n_nested)) if valid else []):
            d = renamed(rng, c, data(grid, ch))
            ss += rng.sample(es, min(len(es), 2)) if (es := in_each_parent(ctx, cases, c, d)) else []
            x = in_parent(P, rng, c, d)
            if x:
                ss.append(x)
        ctx.scripts(ss, "%s: assignments and nestings" % c)


def E01(ctx):
    cover(ctx, ["SecurityScheme"], ctx.pick(12000, None), ctx.pick(90, None), ctx.pick(120, 4000), ctx.pick(120, 3000))
    # other fields beside, invalid kinds, extensions
    rng = ctx.rng
    scripts = []
    for _ in range(ctx.pick(600, 15000)):
        g = Gen(rng, names=rng.choice(["wire", "mix"]), opt=rng.choice([0.3, 0.5, 0.8]), bad=rng.choice([0, 0.05]), depth=4)
        d = g.obj("SecurityScheme", 3)
        x = rng.random()
        if x < 0.5 and d["v"]:     # drop or change one
            i = rng.randrange(len(d["v"]))
            d = O(d["v"][:i] + d["v"][i + 1:])
        if x < 0.7:
            scripts.append(load("SecurityScheme", d, hows(rng), 0))
        else:
            f = rng.choice(META["SecurityScheme"]["f"])
            scripts.append([{"op": "step", "c": "SecurityScheme", "arg": d, "name": f["py"], "to": rng.choice([N, g.ty(f["ty"], (), 4)]), "how": "data"}])
    ctx.scripts(scripts, "random security schemes")


def E02(ctx):
    rng = ctx.rng
    cover(ctx, ["OAuthFlows"], ctx.pick(1500, None), ctx.pick(60, 1500), ctx.pick(80, 3000), ctx.pick(100, 2000), few=2)
    G = grids(ctx)["OAuthFlows"]
    # inside security schemes: constructed, assigned, flows of a scheme assigned
    scripts = []
    for ch in points(ctx, G, ctx.pick(150, None)):
        d = data(G, ch)
        sch = O([["type", S("oauth2")], ["flows", d]])
        k = rng.randrange(5)
        if k == 0:
            scripts.append(load("SecurityScheme", sch, hows(rng), 0))
        elif k == 1:
            scripts.append([{"op": "step", "c": "SecurityScheme", "arg": O([["type", S(rng.choice(["oauth2", "plain", "openIdConnect"]))], ["flows", O([])], ["openIdConnectUrl", S(URL[0])]]), "name": "flows", "to": d, "how": "data"}])
        elif k == 2:
            scripts.append(load("Components", O([["securitySchemes", O([["a", sch]])]]), hows(rng), 0))
        elif k == 3:
            scripts.append(load("Server", O([["host", S("h")], ["protocol", S("p")], ["security", A([sch])]]), hows(rng), 0))
        else:
            scripts.append(load("SecurityScheme", O([["type", S("plain")], ["flows", d]]), hows(rng), 0))
    # flows with all their own fields; flows changed in place, then embedded, assigned, reassigned
    for _ in range(ctx.pick(500, 12000)):
        g = Gen(rng, names=rng.choice(["wire", "mix"]), opt=0.5, depth=4)
        flow = lambda: g.obj("OAuthFlow", 4) if rng.random() < 0.9 else N
        names = [f["w"] for f in META["OAuthFlows"]["f"]]
        d = O([[rng.choice([w, pyname("OAuthFlows", w)]), flow()] for w in rng.sample(names, rng.randrange(5))])
        s = [{"op": "new", "id": 1, "c": "OAuthFlows", "arg": d, "procs": [], "how": hows(rng)}]
        for _ in range(4):
            w = rng.choice(names)
            s.append({"op": "set", "id": 1, "path": [], "name": pyname("OAuthFlows", w), "arg": flow()})
        s.append({"op": "new", "id": 2, "c": "SecurityScheme", "arg": O([["type", S("oauth2")], ["flows", H(1)]]), "procs": [], "how": "kw"})
        scripts.append(s)
        # a flow object spoilt in place
        w = rng.choice(names)
        s = [{"op": "new", "id": 1, "c": "OAuthFlow", "arg": g.obj("OAuthFlow", 4), "procs": [], "how": "data"},
             {"op": "new", "id": 2, "c": "OAuthFlows", "arg": O([[w, H(1)]]), "procs": [], "how": "kw"},
             {"op": "set", "id": 1, "path": [], "name": rng.choice(["token_url", "authorization_url"]), "arg": N},
             {"op": "new", "id": 3, "c": "OAuthFlows", "arg": O([[w, H(1)]]), "procs": [], "how": "kw"},
             {"op": "set", "id": 2, "path": [], "name": pyname("OAuthFlows", rng.choice(names)), "arg": H(1)},
             {"op": "set", "id": 2, "path": [w], "name": rng.choice(["token_url", "authorization_url"]), "arg": N},
             {"op": "set", "id": 2, "path": [], "name": pyname("OAuthFlows", rng.choice(names)), "arg": flow()},
             {"op": "new", "id": 4, "c": "SecurityScheme", "arg": O([["type", S("oauth2")], ["flows", H(2)]]), "procs": [], "how": "kw"}]
        scripts.append(s)
    ctx.scripts(scripts, "flows in security schemes, histories")


def tokens(ctx, n):
    """the token alphabets; TLC compares both formulations on all strings of up to n tokens"""
    ctx.check_model("Strings", "CONSTANT MaxLen = %d\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Agree\n" % n, workers=2, long=True)
    return ctx.cases("tokens", "Strings", "CONSTANT MaxLen = 1\nINIT Init\nNEXT Next\nCONSTRAINT Stop\n")["tokens"]


def strings(ts, n):
    out = {}
    for k in range(n + 1):
        for t in itertools.product(ts, repeat=k):
            out["".join(t)] = 1
    return list(out)


def sweep(rng, c, base, f, vals, mode=None, size=250):
    vals = [S(v) if isinstance(v, str) else v for v in vals]
    rng.shuffle(vals)
    return [[{"op": "sweep", "c": c, "base": base, "f": f, "vals": vals[i:i + size], "mode": mode or rng.choice(["load", "set"]), "how": rng.choice(["data", "json", "bytes"])}] for i in range(0, len(vals), size)]


def E03(ctx):
    rng = ctx.rng
    cover(ctx, ["Channel"], ctx.pick(450, None), ctx.pick(40, None), ctx.pick(80, 3000), ctx.pick(80, 2000))
    ts = tokens(ctx, 5)["address"]
    ss = strings(ts, ctx.pick(5, 7))
    params = [O([]), O([["x", O([])]]), O([["x", O([["$ref", S("#/components/parameters/x")]])], ["y", O([["default", S("d")]])]])]
    scripts = []
    for p in params:
        scripts += sweep(rng, "Channel", O([["parameters", p], ["address", S("{a}")]]), "address", ss, "load")
        scripts += sweep(rng, "Channel", O([["parameters", p], ["address", S("{a}")]]), "address", ss, "set")
    scripts += sweep(rng, "Channel", O([["title", S("t")]]), "address", ss)
    scripts += sweep(rng, "Channel", O([["title", S("t")], ["parameters", N]]), "address", ss)
    more = ["user/{userId}/events", "{" + "a" * 200 + "}", "a" * 500 + "{x}", "{x}" * 50, "{\u00fc}", "\u00fc{a}", "{a\nb}", "\n{a}\n", "{{{{}}}}", "}" * 30 + "{" * 30, "{" * 30 + "}" * 30, "{ }", "{\t}", "{.}", "{-}", "{$}", "{}" * 20, "{}" * 20 + "{a}", "{}{}a}", "\\{a\\}", "{a", "a}", "{a]", "(a)", "[a]", "<a>", "%7Ba%7D", "${a}", "{?a}", "{{a}}", "{a}{", "}{a}", "{a:b}", "\uff5ba\uff5d"]
    scripts += sweep(rng, "Channel", O([["parameters", params[0]], ["address", S("{a}")]]), "address", more, "load")
    scripts += sweep(rng, "Channel", O([["parameters", params[1]], ["address", S("{a}")]]), "address", more, "set")
    ctx.scripts(scripts, "addresses")
    # the two fields assigned in either order, nested in documents, with live objects
    scripts = []
    pool = rng.sample(ss, min(len(ss), ctx.pick(250, 3000))) + more
    for a in pool:
        for p in [rng.choice(params)]:
            orders = [[("address", S(a)), ("parameters", p)], [("parameters", p), ("address", S(a))], [("address", S("{a}")), ("parameters", p), ("address", S(a)), ("address", N), ("parameters", N), ("address", S(a)), ("parameters", p)]]
            o = rng.choice(orders)
            scripts.append([{"op": "new", "id": 1, "c": "Channel", "arg": O([]), "procs": [], "how": "data"}] + [{"op": "set", "id": 1, "path": [], "name": n, "arg": v} for n, v in o] + [{"op": "rebuild", "id": 1, "path": []}])
            ch = O([["address", S(a)], ["parameters", p]])
            doc = rng.choice([O([["channels", O([["c", ch]])]]), O([["components", O([["channels", O([["a", O([])], ["c", ch]])]])]])])
            scripts.append(load("AsyncAPI3", O([["info", O([["title", S("t")], ["version", S("1")]])]] + doc["v"]), hows(rng), 0))
            scripts.append([{"op": "new", "id": 1, "c": "Channel", "arg": O([["address", S(a)]]), "procs": [], "how": "kw"},
                            {"op": "new", "id": 2, "c": "Parameters", "arg": p, "procs": [], "how": "data"},
                            {"op": "set", "id": 1, "path": [], "name": "parameters", "arg": H(2)},
                            {"op": "new", "id": 3, "c": "Channels", "arg": O([]), "procs": [], "how": "data"},
                            {"op": "put", "id": 3, "path": [], "key": "c", "arg": rng.choice([H(1), ch])}])
    ctx.scripts(scripts, "assignments of address and parameters")


BINDINGS = ["AMQPChannelBindings", "AMQPOperationBindings", "IBMMQServerBindings", "IBMMQChannelBindings", "IBMMQMessageBindings", "KafkaServerBindings", "KafkaChannelBindings",
            "NATSOperationBindings", "SolaceServerBindings", "SolaceDestination", "SolaceOperationBindings", "AMQPQueue", "AMQPExchange", "IBMMQQueue", "IBMMQTopic"]


def E04(ctx):
    rng = ctx.rng
    cases = probes(ctx)
    P = Parts(ctx)
    G = grids(ctx)
    loads, later, kept = [], [], []
    for c in BINDINGS:
        chs = points(ctx, G[c], ctx.pick(250, None))
        loads.append((c, chs))
    hs = ctx.scripts([load(c, renamed(rng, c, dressed(rng, c, data(G[c], ch), 0.5)), hows(rng), 0) for c, chs in loads for ch in chs], "combinations")
    i = 0
    for c, chs in loads:
        valid = valid_points(G[c], chs, hs[i:i + len(chs)])
        i += len(chs)
        some = rng.sample(valid, min(len(valid), ctx.pick(15, 400)))
        later += steps(ctx, c, G[c], some, 1)
        later += walks(ctx, c, G[c], valid, ctx.pick(12, 500), 12)
        for ch in rng.sample(chs, min(len(chs), ctx.pick(15, 300))) + some:
            d = renamed(rng, c, data(G[c], ch))
            es = in_each_parent(ctx, cases, c, d)
            later += rng.sample(es, min(len(es), 2))
            x = in_parent(P, rng, c, d)
            if x:
                later.append(x)
    ctx.scripts(later, "assignments and nestings")
    # every number and length around its limits, whatever else is set
    scripts = []
    for c in sorted(META):
        if META[c]["x"] == "map" or not any(limit(f["ty"]) for f in META[c]["f"]):
            continue
        for f in META[c]["f"]:
            for t in limit(f["ty"]):
                vals = around(t, f["ty"])
                for _ in range(ctx.pick(3, 20)):
                    g = Gen(rng, opt=rng.choice([0, 0.5, 1]), depth=4)
                    base = g.obj(c, 3)
                    scripts += sweep(rng, c, base, f["w"], vals)
    ctx.scripts(scripts, "limits")
    w = {"set": 8, "dump": 1}
    from check_objects import live_histories
    live_histories(ctx, ctx.pick(60, 2000), [10, 20], w, "random binding objects", classes=[c for c in META if "Binding" in c or c in BINDINGS], bad=0.3, embed=0.1)


def limit(ty):
    return [a for a in (ty["alts"] if ty["k"] == "union" else [ty]) if a["k"] in ("strmax", "strbytes", "intmin", "intrange")]


def around(t, ty):
    if t["k"] == "strbytes":
        n = t["n"]
        return [S(c * (n // k + d) + "a" * e) for c, k in (("a", 1), ("\u00e9", 2), ("\u20ac", 3), ("\u4e2d", 3)) for d in (-1, 0, 1) for e in (0, 1, 2, 3)]
    if t["k"] == "strmax":
        n = t["n"]
        return [S(x) for x in ("", "a", "a" * (n - 1), "a" * n, "a" * (n + 1), "a" * (n + 7), "\u00fc" * n, "\u00fc" * (n + 1), " " * n, "\n" * (n + 1))]
    out = [t["lo"] - 1, t["lo"], t["lo"] + 1, -1, 0, 1, -(2**40), 2**40, 2**31 - 1, 2**31, -2**31]
    if t["k"] == "intrange":
        out += [t["hi"] - 1, t["hi"], t["hi"] + 1, (t["lo"] + t["hi"]) // 2]
    return [I(i) for i in sorted(set(out))]


def mutations(rng, good, chars, n):
    """near misses: a character inserted, removed, replaced, doubled; several at once"""
    out = set()
    for _ in range(n):
        s = rng.choice(good)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randrange(len(s) + 1)
            x = rng.random()
            ch = rng.choice(chars)
            s = s[:i] + ch + s[i:] if x < 0.4 else s[:i] + s[i + 1:] if x < 0.65 else s[:i] + ch + s[i + 1:] if x < 0.9 else s[:i] + s[i:i + 1] * 2 + s[i + 1:]
        out.add(s)
    return sorted(out)


def E05(ctx):
    rng = ctx.rng
    ts = tokens(ctx, 5)
    n = ctx.pick(4, 5)
    doc = O([["info", O([["title", S("t")], ["version", S("1")]])]])
    scripts = []
    odd = ["\n", " ", "\t", "\r", "\x00", "\x0b", "\u00fc", "\u0660", "\uff13", "\u2028", "\u00a0", "\u212a"]
    # e-mail
    scripts += sweep(rng, "Contact", O([["name", S("n")]]), "email", strings(ts["email"][:6], n) + EMAIL + BADEMAIL)
    long_ = ["a" * k + "@b.co" for k in (1, 63, 64, 65, 200, 1000)] + ["a@" + "b" * k + ".co" for k in (1, 63, 64, 255, 1000)] + ["a@b." + "c" * k for k in (1, 2, 3, 24, 200)]
    emails = EMAIL + ["user.name@example.com", "a.b.c.d@e.f.g.org", "x_y%z+w-v@host-name.travel", "1@2.com"]
    scripts += sweep(rng, "Contact", O([]), "email", long_ + mutations(rng, emails, list("aZ0.@-_%+, \n\"'<>()!#$&*/=?^`{|}~:;[]\\") + odd, ctx.pick(2500, 60000)))
    # version
    versions = VERSION + ["3.0.0", "3.12.345", "3.0.0-alpha.1-x_y"]
    scripts += sweep(rng, "AsyncAPI3", doc, "asyncapi", strings(ts["semver"], n) + VERSION + BADVERSION)
    scripts += sweep(rng, "AsyncAPI3", doc, "asyncapi", mutations(rng, versions, list("0123456789.-_+abcxvRC \n") + odd, ctx.pick(1500, 40000)) + ["%d.%s" % (k, r) for k in (0, 1, 2, 3, 4, 9, 13, 30, 31, 33, 300) for r in ("0.0", "1.2", "0.0-a", "0", "")] + ["3.0." + "9" * 500, "3." + "1" * 500 + ".0", "3.0.0-" + "a" * 500])
    # correlation id locations
    scripts += sweep(rng, "CorrelationID", O([["location", S("$message.a")], ["description", S("d")]]), "location", strings(ts["rtexpr"], n) + RTEXPR + BADRTEXPR)
    scripts += sweep(rng, "CorrelationID", O([["location", S("$message.a")]]), "location", mutations(rng, RTEXPR + ["$message.header#/correlationId", "$message.x\n"], list("$message.header#/ \n.{}") + odd, ctx.pick(1500, 40000)))
    scripts += sweep(rng, "OperationReplyAddress", O([["location", S("$message.a")]]), "location", mutations(rng, RTEXPR, list("$mesag.hdr#/ \n") + odd, ctx.pick(400, 5000)))
    ctx.scripts(scripts, "strings")
    # other kinds of values in these fields
    scripts = []
    for c, base, f in (("Contact", O([]), "email"), ("AsyncAPI3", doc, "asyncapi"), ("CorrelationID", O([["location", S("$message.a")]]), "location"), ("OperationReplyAddress", O([["location", S("$message.a")]]), "location")):
        for mode in ("load", "set"):
            scripts += sweep(rng, c, base, f, [N, I(3), F(3.0), B(True), A([]), A([S("3.0.0")]), O([]), O([["a", S("$message.a")]])], mode)
    ctx.scripts(scripts, "other values")
    # nested in documents
    P = Parts(ctx)
    scripts = []
    good = {"Contact": ("email", EMAIL, BADEMAIL), "CorrelationID": ("location", RTEXPR, BADRTEXPR), "OperationReplyAddress": ("location", RTEXPR, BADRTEXPR)}
    for c, (f, ok, bad) in good.items():
        for v in ok + bad:
            if not (c == "Contact" and v in ("a@b.co.",)):
                for _ in range(ctx.pick(1, 8)):
                    x = in_document(P, rng, c, O([[f, S(v)]]))
                    if x:
                        scripts.append(load("AsyncAPI3", x, hows(rng), 0))
    ctx.scripts(scripts, "in documents")
    cover(ctx, ["MessageExample"], None, ctx.pick(60, None), ctx.pick(60, 2000), ctx.pick(80, 1500))
