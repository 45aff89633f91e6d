"""Random data for the types of the object model table (tagged form).

Nothing here decides what is valid: the specification judges every case.  The generator only keeps
away from inputs about which the properties say nothing (see DESIGN.md, "Out of scope")."""
import copy

import tlc
import words
from codec import *

MODEL = tlc.model()
META = MODEL["meta"]
FK = MODEL["fieldKinds"]
IK = MODEL["itemKinds"]
FIELDS = {c: {f["py"]: f for f in META[c]["f"]} for c in META}
ALLNAMES = sorted({n for c in META for f in META[c]["f"] for n in (f["py"], f["w"])})
KEYCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
COLLIDING = [n for n in ALLNAMES if all(ch in KEYCHARS for ch in n)] + ["root", "spec", "ref", "items", "keys", "get", "__class__", "__init__", "model_fields", "self", "data"]
PLAIN = ["a", "b", "c", "main", "user-events", "A_1", "0", "-", "_", "B2", "k" * 70, "00", "test_x", "CamelCase", "x-y"]
STR = ["", "a", "text", "some longer text, with spaces", "\u00fcn\u00ef \u2713 \u4e2d", "0", "null", "true", " lead", "trail ", "a\nb", "tab\t", "#/components/schemas/a",
       "https://example.com/", "$ref", "{x}", "quote\" \\back/slash", "<b>&amp;</b>", "*", "-1", "1.0", "l" * 300]
URL = ["https://example.com/", "https://example.com/a/b?x=1#f", "http://example.com:8080/p", "urn:com:example:server", "mailto:a@example.com", "ftp://example.com/x", "wss://h.example.com/"]
BADURL = ["no url", "", "example.com", "//example.com", "http://"]
HTTPURL = URL[:3]
EMAIL = ["a@b.co", "first.last@example.com", "u+t%g_x-1@sub.example.org", "A9@Z-9.museum"]
BADEMAIL = ["a@b", "a", "@b.co", "a@b.co ", "a@b.co\n", "a..b@c.de", "a@b..co", "a@b.c", "a b@c.de", "a@b@c.de", "a@b.c0", "", " a@b.co", "a@.co", "a@b.co."]
VERSION = ["3.0.0", "3.1.2", "3.0.0-rc.1", "3.10.20-a_b-c", "3.0.0-0"]
BADVERSION = ["2.6.0", "3.0", "3", "3.0.0.0", "4.0.0", "3.0.0-", "3.0.0\n", " 3.0.0", "v3.0.0", "3.0.x", "3..0", "3.0.0+b", "30.0.0", "3.0.0 ", "13.0.0", "3.0.0-a b", "", "-3.0.0", "3.0.-1"]
RTEXPR = ["$message.header#/correlationId", "$message.payload#/a/b", "$message."]
BADRTEXPR = ["$message", "message.header#/a", " $message.header", "", "$Message.header", "$request.header#/a", "x$message.a", "$message#/a"]
COLLIDING += [w for w in words.KEYWORDS if w not in COLLIDING and all(ch in KEYCHARS for ch in w) and len(w) <= 128]
SCHEMAKEYS = ["type", "properties", "items", "required", "enum", "title", "description", "x-note", "format", "minimum", "allOf", "$id", "$schema", "default", "const", "if", "copy", "json", "dict", "examples", "additionalProperties", "x", "schemas", "name", "Deprecated"]
TOPICKEYS = ["min.insync.replicas", "x-note", "segment.ms", "custom", "copy", "cleanupPolicy"]
NOSCHEMA = {"$ref", "ref", "schema", "schemaFormat", "schema_format", "root"}
_TAKEN = NOSCHEMA | {n for c in ("Schema", "KafkaTopicConfiguration", "MultiFormatSchema") for f in META[c]["f"] for n in (f["py"], f["w"])} | {"extra_converters", "extra_validators"}


def _spare(n):
    import pydantic
    return n not in _TAKEN and not n.startswith("_") and not hasattr(pydantic.BaseModel, n)


MOREKEYS = [w for w in dict.fromkeys(words.STRINGS + words.KEYWORDS) if _spare(w) and len(w) <= 40]
EXT = ["x-a", "x-b", "x-b.c", "x-d-e", "x-_", "x-0", "x-A", "x--", "x-.", "x-internal-name", "x-" + "n" * 60]
BADEXT = ["foo", "X-a", "x-", "xa", "x-a b", "x-a\n", "-x-a", "x_a", " x-a", "x-a/b", "x-a$", "y-a", "", "x", "xx-a", "x-a:b", "x-a ", "x-\n"]


def kinds_in(ty):
    """scalar kinds a type mentions at top level"""
    if ty["k"] == "union":
        return set().union(*[kinds_in(a) for a in ty["alts"]])
    if ty["k"] == "lit":
        return {"int" if v["t"] == "i" else "str" for v in ty["vs"]}
    return {{"intmin": "int", "intrange": "int", "strmax": "str", "strbytes": "str", "url": "str", "httpurl": "str", "email": "str", "semver": "str", "rtexpr": "str"}.get(ty["k"], ty["k"])}


class Gen:
    def __init__(self, rng, names="wire", opt=0.3, bad=0.0, ext=0.08, big=0.03, depth=7, plan=False, reflike=0.3, collide=0.35, keys=None, safe=None, least=0):
        self.r, self.names, self.opt, self.bad, self.ext, self.big, self.depth = rng, names, opt, bad, ext, big, depth
        self.plan, self.reflike, self.collide, self.keys, self.safe = plan, reflike, collide, keys, safe
        self.least = least
        self.slots = []

    # -- small helpers
    def hit(self, p):
        return self.r.random() < p

    def key(self):
        if self.keys:
            return self.r.choice(self.keys)
        x = self.r.random()
        if x < self.collide:
            return self.r.choice(COLLIDING)
        if x < 0.85:
            return self.r.choice(PLAIN)
        return "".join(self.r.choice(KEYCHARS) for _ in range(self.r.choice([1, 2, 5, 20, 64, 65, 128, 129])))

    def length(self):
        if self.hit(self.big):
            return self.r.choice([9, 12, 17, 33])
        return max(self.least, self.r.choice([0, 1, 1, 1, 2, 2, 3]))

    def any(self, d=0):
        r = self.r
        k = r.randrange(12 if d < 3 else 7)
        if k == 0:
            return N
        if k == 1:
            return B(r.random() < 0.5)
        if k == 2:
            return I(r.choice([0, 1, -1, 42, 2**31 - 1, 2**40, -2**63, 2**53 + 1, 10**25]))
        if k == 3:
            return enc(r.choice([1.5, -0.25, 0.1, 1e300, 3.14159, 0.0, -1.0]))
        if k in (4, 5, 6):
            return S(words.string(r) if self.hit(0.15) else r.choice(STR))
        if k in (7, 8):
            return A(self.any(d + 1) for _ in range(r.choice([0, 1, 2, 3])))
        ks = []
        for _ in range(r.choice([0, 1, 2, 3])):
            n = r.choice(STR + COLLIDING + ["x-a", "$ref"])
            if n not in ks:
                ks.append(n)
        return O([n, self.any(d + 1)] for n in ks)

    def badvalue(self, ty, ks=None):
        ks = ks or kinds_in(ty)
        c = [I(7), S("zzz"), F(1.5), N, A([]), A([S("zzz")]), A([I(3)]), A([N]), O([["zzz", I(1)]])]
        if "dict" not in ks:
            c.append(O([]))
        if "int" not in ks:
            c.append(B(True))
        return copy.deepcopy(self.r.choice(c))

    # -- types
    def ty(self, ty, kinds=(), d=0, ks=None):
        k = ty["k"]
        r = self.r
        if self.bad and k != "any" and self.hit(self.bad) and not any(a.get("c") == "MultiFormatSchema" for a in ty.get("alts", [])):
            b = self.nearmiss(ty)
            return b if b is not None and self.hit(0.7) else self.badvalue(ty, ks)
        if k == "any":
            return self.any()
        if k == "null":
            return N
        if k == "str":
            return S(words.string(r) if self.hit(0.25) else r.choice(STR))
        if k == "strmax":
            return S("s" * r.choice([0, 1, ty["n"] - 1, ty["n"]]))
        if k == "strbytes":
            return S(r.choice(["", "s", "s" * ty["n"], "\u00e9" * (ty["n"] // 2), "\u20ac" * (ty["n"] // 3), "\u20ac" * (ty["n"] // 3) + "s"]))
        if k == "int":
            return I(words.number(r) if self.hit(0.25) else r.choice([0, 1, -1, 7, 60000, 2**31 - 1, 2**40]))
        if k == "intmin":
            return I(ty["lo"] + r.choice([0, 0, 1, 5, 2**33]))
        if k == "intrange":
            return I(r.choice([ty["lo"], ty["hi"], ty["lo"] + 1, ty["hi"] - 1, (ty["lo"] + ty["hi"]) // 2]))
        if k == "bool":
            return B(r.random() < 0.5)
        if k == "url":
            return S(r.choice(URL))
        if k == "httpurl":
            return S(r.choice(HTTPURL))
        if k == "email":
            return S(r.choice(EMAIL))
        if k == "semver":
            return S(r.choice(VERSION))
        if k == "rtexpr":
            return S(r.choice(RTEXPR))
        if k == "lit":
            return dict(r.choice(ty["vs"]))
        if k == "list":
            return A(self.ty(ty["of"], kinds, d + 1) for _ in range(self.length()))
        if k == "dict":
            ks = []
            for _ in range(self.length()):
                n = r.choice(STR[1:] + COLLIDING + words.STRINGS) if ty["of"]["k"] == "any" else self.varname()
                if n not in ks:
                    ks.append(n)
            return O([n, self.ty(ty["of"], kinds, d + 1)] for n in ks)
        if k == "obj":
            if ty["c"] == "Reference":
                return self.ref(kinds)
            return self.obj(ty["c"], d + 1)
        if k == "union":
            alts = [a for a in ty["alts"] if a["k"] != "null"]
            if len(alts) < len(ty["alts"]) and self.hit(0.04):
                return N
            refs = [a for a in alts if a.get("c") == "Reference"]
            rest = [a for a in alts if a.get("c") != "Reference"]
            if refs and (not rest or self.hit(self.reflike)):
                return self.ref(kinds)
            a = r.choice(rest)
            return self.ty(a, kinds, d, kinds_in(ty))
        raise ValueError(k)

    def varname(self):
        return self.r.choice(["port", "env", "a", "b"] + (["a.b", "variables", "x[0]", "*", "server_variables", "root"] if self.collide else []))

    def alike(self, v, free=False):
        """data close to a value, of the same shape unless anything may stand there"""
        r, k, x = self.r, v["t"], v["v"]
        if k == "s":
            i = r.randrange(len(x) + 1)
            c = [x + "/", x.rstrip("/"), x.swapcase(), x.upper(), x.lower(), x.title(), x.strip(), x + " ", " " + x, x + "\n", x[:-1], x[1:], x + x[-1:], x + "x", x[:i] + "-" + x[i:], x[:i] + x[i + 1:], x.replace("-", "_"), x.replace("https", "http"),
                 x.replace("http:", "https:"), x + "#", x + "?", x + "/.", "".join(sorted(x)), x[::-1], x.replace("example", "EXAMPLE"), x.casefold(), x + "\u0301", x + "\x00", x.replace("e", "\u00e9")]
            c = [S(y) for y in dict.fromkeys(c) if y != x]
            if free:
                c += [S(x), A([v]), N]
        elif k == "i":
            c = [I(x + d) for d in (-1, 1, 2, -2, 10)] + [I(-x), I(x * 2), I(x + 2**32)]
            if free:
                c += [F(float(x)) if abs(x) < 2**50 else I(0), S(str(x)), B(bool(x)), N]
        elif k == "b":
            c = [B(not x)] + ([I(int(x)), F(float(x)), S(str(x).lower()), N] if free else [])
        elif k == "a":
            c = [A(x[::-1]), A(x + x), A(x[:-1]), A(x[1:]), A(x + x[:1]), A(sorted(x, key=repr)), A([y for i, y in enumerate(x) if y not in x[:i]])]
            c += [A(x[:i] + [y] + x[i + 1:]) for i in range(len(x)) for y in (self.alike(x[i], free)[:2] if free or x[i]["t"] not in "oa" else [])]
        elif k == "o":
            c = [O(x[::-1]), O(x[1:] + x[:1]), O(sorted(x, key=lambda p: p[0])), O(x[:-1]), O(x[1:])]
            c += [O(x[:i] + [[x[i][0], y]] + x[i + 1:]) for i in range(len(x)) for y in (self.alike(x[i][1], free)[:2] if free or x[i][1]["t"] not in "oa" else [])]
        elif k == "n":
            c = [B(False), I(0), S(""), A([]), O([])] if free else []
        elif k == "f":
            c = [F(float(x) + 1), F(-float(x)), F(float(x) + 1e-9)] + ([I(int(float(x)))] if free and abs(float(x)) < 1e9 else [])
        else:
            c = []
        c = [y for y in c if y != v or y["t"] == "o"]
        r.shuffle(c)
        return c

    def nearmiss(self, ty):
        k, r = ty["k"], self.r
        if k == "strmax":
            return S("s" * r.choice([ty["n"] + 1, ty["n"] * 2]))
        if k == "strbytes":
            return S(r.choice(["s" * (ty["n"] + 1), "\u00e9" * (ty["n"] // 2) + "s", "\u20ac" * (ty["n"] // 2)]))
        if k == "intmin":
            return I(ty["lo"] - r.choice([1, 1, 2, 2**33]))
        if k == "intrange":
            return I(r.choice([ty["lo"] - 1, ty["hi"] + 1, ty["hi"] + 2**33, -(2**33)]))
        if k == "url":
            return S(r.choice(BADURL))
        if k == "httpurl":
            return S(r.choice(BADURL + URL[3:]))
        if k == "email":
            return S(r.choice(BADEMAIL))
        if k == "semver":
            return S(r.choice(BADVERSION))
        if k == "rtexpr":
            return S(r.choice(BADRTEXPR))
        if k == "lit":
            if ty["vs"][0]["t"] == "i":
                return I(words.number(r) if self.hit(0.5) else r.choice([-1, 3, 99]))
            w = r.choice(["", "zzz", words.string(r), words.string(r), words.vary(r, r.choice(ty["vs"])["v"]), words.vary(r, r.choice(ty["vs"])["v"])])
            return S(w)
        if k == "union":
            b = [x for x in map(self.nearmiss, ty["alts"]) if x is not None]
            return r.choice(b) if b else None
        return None

    # -- references
    def ref(self, kinds):
        r = self.r
        name = "$ref" if self.names == "wire" or (self.names == "mix" and self.hit(0.5)) else "ref"
        if self.plan:
            s = S("")
            self.slots.append((kinds, s))
            return O([[name, s]])
        if self.safe is not None:
            good = [p for k, p in self.safe.items() if k in kinds]
            return O([[name, S(r.choice(good) if good and self.hit(0.5) else "https://example.com/%d.json#/a" % r.randrange(3))]])
        return O([[name, S(r.choice(["#/components/schemas/a", "#/channels/a", "https://example.com/x.json#/a", "./other.yaml", "", "#", "#/components/messages/" + self.key(), "a b"]))]])

    # -- objects
    def obj(self, c, d=0, fields=None):
        r = self.r
        m = META[c]
        if c == "Reference":
            return self.ref(())
        if m["x"] == "map":
            n = self.length() if d < self.depth else r.choice([0, 1])
            pairs = []
            for _ in range(n):
                k = self.key()
                if k not in [p[0] for p in pairs]:
                    pairs.append([k, self.ty(m["of"], IK[c], d)])
            if self.bad and self.hit(self.bad):
                bk = r.choice(["", "a b", "a\n", "\na", "a/b", "a.b", "\u00e9", "a$", " a", "a ", "\u0661", "a\tb", "*", "a:b", "{a}"])
                pairs.insert(r.randrange(len(pairs) + 1), [bk, self.ty(m["of"], IK[c], d)])
            return O(pairs)
        p = self.opt * (1.0 if d < 3 else 0.6 if d < self.depth else 0.12)
        vals = {}
        for i, f in enumerate(m["f"]):
            if f["req"] or (f["py"] in fields if fields is not None else self.hit(p)):
                vals[f["py"]] = self.ty(f["ty"], FK[c][i], d)
        if not (self.bad and self.hit(self.bad * 3)):
            self.repair(c, vals, d)
        if self.bad and self.hit(self.bad):
            req = [f["py"] for f in m["f"] if f["req"]]
            if req:
                vals.pop(r.choice(req), None)
        pairs = [[self.name(FIELDS[c][py]), v] for py, v in vals.items()]
        pairs += self.extras(c, [q[0] for q in pairs])
        if self.hit(0.3):
            r.shuffle(pairs)
        return O(pairs)

    def name(self, f):
        if self.names == "wire":
            return f["w"]
        if self.names == "py":
            return f["py"]
        return self.r.choice([f["w"], f["py"]])

    def extras(self, c, used):
        r, m, out = self.r, META[c], []
        known = {n for f in m["f"] for n in (f["py"], f["w"])}
        if m["x"] == "ext" and self.hit(self.ext * 3):
            for n in r.sample(EXT, r.choice([1, 1, 2])):
                out.append([n, self.any()])
        if m["x"] == "any" and self.hit(0.6):
            pool = SCHEMAKEYS if c != "KafkaTopicConfiguration" else TOPICKEYS
            if c == "MultiFormatSchema":
                pool = ["x-a", "x-b", "type", "title"]
            if c != "MultiFormatSchema" and self.hit(0.3):
                pool = MOREKEYS
            for n in r.sample(pool, r.choice([1, 2, 3])):
                if n not in known:
                    out.append([n, self.any()])
        if self.bad and m["x"] in ("ext", "no") and self.hit(self.bad):
            n = r.choice(BADEXT + EXT + ALLNAMES)
            if n not in known and n not in ("extra_converters", "extra_validators") and n not in [o[0] for o in out] and not (c == "Reference"):
                out.append([n, self.any()])
        return out

    def repair(self, c, v, d):
        """make the coupled fields of an object fit, most of the time"""
        r = self.r
        one = lambda py: self.ty(FIELDS[c][py]["ty"] if FIELDS[c][py]["ty"]["k"] != "union" else FIELDS[c][py]["ty"]["alts"][0], (), d)
        present = lambda py: v.get(py, N)["t"] != "n"
        if c == "Channel" and present("parameters"):
            v["address"] = S(r.choice(["a/{x}", "{x}", "{a}/{b}", "p{user_id}s", "{{x}}"]))
        elif c == "MessageExample" and not present("headers") and not present("payload"):
            v.pop("headers", None)
            v["payload"] = r.choice([S("p"), I(0), B(False), A([]), O([]), S("")])
        elif c == "OAuthFlows":
            need = {"implicit": ["authorization_url"], "password": ["token_url"], "client_credentials": ["token_url"], "authorization_code": ["authorization_url", "token_url"]}
            for k, us in need.items():
                if present(k) and v[k]["t"] == "o":
                    names = [n for p in v[k]["v"] for n in [p[0]]]
                    for u in us:
                        f = FIELDS["OAuthFlow"][u]
                        v[k]["v"] = [p for p in v[k]["v"] if p[0] not in (f["py"], f["w"])] + [[self.name(f), S(r.choice(URL))]]
        elif c == "SecurityScheme":
            t = v.get("type_", N).get("v")
            if t == "apiKey":
                v["in_"] = S(r.choice(["user", "password"]))
            if t == "httpApiKey":
                v["in_"] = S(r.choice(["query", "header", "cookie"]))
                v["name"] = S(r.choice(["k", ""]))
            if t == "http":
                v["scheme"] = S(r.choice(["bearer", "basic"]))
            if t == "oauth2" and not present("flows"):
                v["flows"] = self.obj("OAuthFlows", d + 1)
            if t == "openIdConnect":
                v["open_id_connect_url"] = S(r.choice(URL))
            if not (t == "http" and v["scheme"]["v"] == "bearer"):
                v.pop("bearer_format", None)
            if t not in ("oauth2", "openIdConnect"):
                v.pop("scopes", None)
        elif c in ("AMQPChannelBindings", "SolaceDestination"):
            key, on = ("is_", "routingKey") if c[0] == "A" else ("destination_type", "topic")
            a, b = ("exchange", "queue") if c[0] == "A" else ("topic", "queue")
            if v.get(key, N).get("v") != on:
                a, b = b, a
            v.pop(b, None)
            if not present(a):
                v[a] = one(a)
        elif c == "IBMMQChannelBindings":
            if v.get("destination_type", N).get("v") == "queue":
                v.pop("topic", None)
                if not present("queue"):
                    v["queue"] = one("queue")
            elif present("queue"):
                v.pop("topic", None)
        elif c == "IBMMQMessageBindings" and present("headers"):
            v["type"] = S("binary")
        elif c == "KafkaServerBindings" and present("schema_registry_vendor"):
            v["schema_registry_url"] = S("https://r")

    # -- documents with planned references
    def doc(self, fields=None, wrong=0.5, procs=True):
        self.plan, self.slots = True, []
        d = self.obj("AsyncAPI3", 0, fields)
        self.assign_refs(d, wrong)
        return d

    def assign_refs(self, d, wrong, extra=()):
        r = self.r
        ts = list(targets(d, "AsyncAPI3", "#"))
        n = max(1, len(self.slots))
        for kinds, s in self.slots:
            good = [p for p, k in ts if k in kinds]
            chain = [p for p, k in ts if k == "Reference"]
            if self.hit(wrong / n) or not good:
                x = r.random()
                wrongkind = [p for p, k in ts if k not in kinds and k != "Reference"]
                if x < 0.3 and wrongkind:
                    s["v"] = r.choice(wrongkind)
                elif x < 0.5 and ts:
                    s["v"] = r.choice(ts)[0] + r.choice(["x", "/x", "/name", "-"])
                elif x < 0.6:
                    s["v"] = r.choice(["#", "", "other.yaml#/a", "ftp://example.com/x", "/servers/a", "components/schemas/a", "file.json", "http:/x", "HTTP://example.com", "htt", "www.example.com", "#/nowhere", "#/components", "#/info"])
                elif x < 0.7 and chain:
                    s["v"] = r.choice(chain)
                else:
                    s["v"] = r.choice(["https://example.com/a.json#/x", "http://example.com/", "https://"])
            elif chain and self.hit(0.15):
                s["v"] = r.choice(chain)
            else:
                s["v"] = r.choice(good)


def pick_alt(ty, v):
    """which object alternative data is meant for"""
    alts = [a for a in (ty["alts"] if ty["k"] == "union" else [ty])]
    cs = [a["c"] for a in alts if a["k"] == "obj"]
    if v["t"] == "o":
        ks = [p[0] for p in v["v"]]
        if len(ks) == 1 and ks[0] in ("$ref", "ref") and "Reference" in cs:
            return "Reference"
        if "MultiFormatSchema" in cs:
            return "MultiFormatSchema" if "schema" in ks else "Schema"
    cs = [c for c in cs if c != "Reference"]
    return cs[0] if cs else None


def targets(v, c, path, py=False):
    """(path, kind) of every addressable part of data for class c"""
    m = META[c]
    if c == "Reference":
        return
    if v["t"] != "o":
        return
    for k, x in v["v"]:
        if m["x"] == "map":
            ty = m["of"]
        else:
            f = next((f for f in m["f"] if k in (f["py"], f["w"])), None)
            if f is None:
                continue
            ty, k = f["ty"], f["w"]
        yield from target(x, ty, path + "/" + k)


def target(x, ty, path):
    if x["t"] == "n" or "/" in path.rsplit("/", 1)[-1]:
        return
    alts = ty["alts"] if ty["k"] == "union" else [ty]
    c = pick_alt(ty, x) if x["t"] == "o" else None
    if c:
        yield path, c
        yield from targets(x, c, path)
        return
    yield path, "other"
    for a in alts:
        if a["k"] == "dict" and x["t"] == "o":
            for k, y in x["v"]:
                if "/" not in k and k and a["of"]["k"] != "any":
                    yield from target(y, a["of"], path + "/" + k)


def F(x):
    return {"t": "f", "v": repr(x)}
