"""Random histories on live objects.  What to do next is chosen from the observed state; what must
happen is for the specification to say."""
import random

import machine
from codec import *
from gen import Gen, META, FIELDS, FK, EXT, BADEXT, PLAIN, STR, COLLIDING

BADKEYS = ["", "a b", "a\n", "\na", "a/b", "a.b", "a$", "*", "{a}", "a:b"]
COMPOSITE = ("m", "M", "a")


def alts(ty):
    return ty["alts"] if ty["k"] == "union" else [ty]


def parts(v, path=(), ty=None):
    """(path, value, declared type) of every object, collection and typed list in an observed value"""
    if v["t"] in COMPOSITE:
        yield list(path), v, ty
    if v["t"] == "m":
        for f, x in zip(META[v["c"]]["f"], v["v"]):
            if x["t"] in ("m", "M", "a", "o"):
                yield from parts(x, path + (f["w"],), f["ty"])
    elif v["t"] == "M":
        for k, x in v["v"]:
            yield from parts(x, path + (k,), META[v["c"]]["of"])
    elif v["t"] == "a":
        of = next((a["of"] for a in alts(ty) if a["k"] == "list"), None) if ty else None
        if of:
            for i, x in enumerate(v["v"]):
                yield from parts(x, path + (i + 1,), of)
    elif v["t"] == "o":
        of = next((a["of"] for a in alts(ty) if a["k"] == "dict"), None) if ty else None
        if of and of["k"] != "any":
            for k, x in v["v"]:
                yield from parts(x, path + (k,), of)


def classes_in(ty, deep=True):
    out = set()
    for a in alts(ty):
        if a["k"] == "obj":
            out.add(a["c"])
        elif deep and a["k"] in ("list", "dict"):
            out |= classes_in(a["of"])
    return out


class Live:
    def __init__(self, seed, embed=0.3, bad=0.35):
        self.r = random.Random(seed)
        self.m = machine.Machine()
        self.embed, self.bad = embed, bad
        self.out, self.next = [], 1
        self.good = Gen(self.r, names="wire", opt=0.35, depth=4)
        self.near = Gen(self.r, names="mix", opt=0.3, depth=4, bad=0.3)

    def do(self, **ev):
        e = self.m.do(ev)
        self.out.append(e)
        return e

    # -- values
    def value(self, ty, kinds=(), path_free=False):
        """data for a type, sometimes live objects in it"""
        r = self.r
        if r.random() < self.embed:
            v = self.with_handle(ty)
            if v is not None:
                return v
        x = r.random()
        if x < self.bad * 0.5:
            return self.near.ty(ty, kinds, 4) if r.random() < 0.7 else self.near.badvalue(ty)
        if x < self.bad * 0.5 + 0.12:
            return N
        return self.good.ty(ty, kinds, 4)

    def with_handle(self, ty):
        r = self.r
        ids = list(self.m.seen)
        if not ids:
            return None
        a = r.choice(alts(ty))
        if a["k"] == "list":
            inner = [self.with_handle(a["of"]) if r.random() < 0.7 else self.good.ty(a["of"], (), 4) for _ in range(r.choice([1, 1, 2, 3]))]
            return A(inner) if all(x is not None for x in inner) else None
        if a["k"] == "dict" and a["of"]["k"] != "any":
            x = self.with_handle(a["of"])
            return O([["k", x]]) if x is not None else None
        if a["k"] != "obj":
            return None
        if r.random() < 0.12:
            return H(r.choice(ids))        # any object, mostly of the wrong class
        fit = [i for i in ids if self.m.seen[i].get("c") == a["c"]]
        if fit and r.random() < 0.8:
            return H(r.choice(fit))
        c = a["c"]
        if META[c]["x"] == "map":          # data of a collection holding live objects
            x = self.with_handle(META[c]["of"])
            return O([[r.choice(PLAIN), x]]) if x is not None else None
        fs = [f for f in META[c]["f"] if classes_in(f["ty"]) & {v.get("c") for v in self.m.seen.values()}]
        if fs:
            f = r.choice(fs)
            x = self.with_handle(f["ty"])
            if x is not None:
                d = self.good.obj(c, 3, fields=set())
                return O([p for p in d["v"] if p[0] != f["w"]] + [[f["w"], x]])
        return None

    # -- operations
    def new(self, c, arg=None):
        i = self.next
        self.next += 1
        arg = arg if arg is not None else self.good.obj(c, 2)
        return self.do(op="new", id=i, c=c, arg=arg, procs=[], how=self.r.choice(["data", "kw", "data", "json"]) if not has_handle(arg) else self.r.choice(["data", "kw"]))

    def container(self, classes):
        """a new object made from data that holds live objects"""
        r = self.r
        have = {v.get("c") for v in self.m.seen.values()}
        cs = [c for c in classes if (META[c]["x"] == "map" and classes_in(META[c]["of"]) & have) or any(classes_in(f["ty"]) & have for f in META[c]["f"])]
        if not cs:
            return None
        c = r.choice(cs)
        if META[c]["x"] == "map":
            ps = []
            for k in r.sample(PLAIN, r.choice([1, 2, 3])):
                x = self.with_handle(META[c]["of"])
                if x is not None:
                    ps.append([k, x])
            return self.new(c, O(ps))
        d = self.good.obj(c, 3, fields=set())
        for f in [f for f in META[c]["f"] if classes_in(f["ty"]) & have]:
            if r.random() < 0.6:
                x = self.with_handle(f["ty"])
                if x is not None:
                    d = O([p for p in d["v"] if p[0] != f["w"]] + [[f["w"], x]])
        return self.new(c, d)

    def pick(self, kinds, nested=0.5):
        """(id, path, value, type) of a part"""
        r = self.r
        ids = list(self.m.seen)
        if not ids:
            return None
        i = r.choice(ids)
        ps = [p for p in parts(self.m.seen[i]) if p[1]["t"] in kinds]
        if r.random() > nested:
            ps = [p for p in ps if not p[0]] or ps
        return (i, *r.choice(ps)) if ps else None

    def set(self):
        p = self.pick(("m",))
        if not p:
            return
        i, path, v, _ = p
        m, r = META[v["c"]], self.r
        if r.random() < 0.12:
            if m["x"] == "any":
                return
            n = r.choice(EXT + [b for b in BADEXT if b and not b.startswith("_")])
            return self.do(op="set", id=i, path=path, name=n, arg=self.good.any())
        if not m["f"]:
            return
        k = r.randrange(len(m["f"]))
        f = m["f"][k]
        if silent(v["c"], f["ty"]):
            arg = self.good.ty(f["ty"], (), 4) if r.random() > self.embed else self.with_handle(f["ty"]) or N
        else:
            arg = self.value(f["ty"])
        return self.do(op="set", id=i, path=path, name=f["py"], arg=arg)

    def put(self):
        p = self.pick(("M",), 0.6)
        if not p:
            return
        i, path, v, _ = p
        r = self.r
        keys = [k for k, _ in v["v"]]
        x = r.random()
        key = r.choice(keys) if keys and x < 0.4 else r.choice(BADKEYS) if x < 0.5 else r.choice(PLAIN + COLLIDING[:40])
        of = META[v["c"]]["of"]
        arg = self.value(of) if not silent(v["c"], of) else (self.with_handle(of) if r.random() < self.embed else None) or self.good.ty(of, (), 4)
        return self.do(op="put", id=i, path=path, key=key, arg=arg)

    def delete(self):
        p = self.pick(("M",), 0.6)
        if not p:
            return
        i, path, v, _ = p
        keys = [k for k, _ in v["v"]] * 2 + [self.r.choice(PLAIN)]
        return self.do(op="del", id=i, path=path, key=self.r.choice(keys))

    def look(self):
        p = self.pick(("M",), 0.6)
        if p:
            return self.do(op="look", id=p[0], path=p[1], key=self.r.choice([k for k, _ in p[2]["v"]] + [self.r.choice(PLAIN + BADKEYS)]))

    def dump(self):
        p = self.pick(("m", "M"), 0.3)
        if p:
            return self.do(op="dump", id=p[0], path=p[1])

    def rebuild(self):
        p = self.pick(("m", "M"), 0.3)
        if p:
            return self.do(op="rebuild", id=p[0], path=p[1])

    def copy(self):
        p = self.pick(("m", "M"), 0.4)
        if p:
            self.next += 1
            return self.do(op="copy", id=p[0], path=p[1], to=self.next - 1, how=self.r.choice(["deepcopy", "model_copy", "pickle"]))

    def eq(self):
        ids = list(self.m.seen)
        if len(ids) > 1:
            a = self.r.choice(ids)
            same = [i for i in ids if i != a and self.m.seen[i].get("c") == self.m.seen[a].get("c")]
            if same:
                return self.do(op="eq", a=a, b=self.r.choice(same))

    def append(self):
        """a change in place that no validation sees"""
        p = self.pick(("a",), 1)
        if not p or p[3] is None:
            return
        i, path, v, ty = p
        of = next((a["of"] for a in alts(ty) if a["k"] == "list"), None)
        if of is None or of["k"] == "any":
            return
        return self.do(op="append", id=i, path=path, arg=self.r.choice([I(3), N, A([]), self.good.ty({"k": "str"})] if not classes_in(of) else [I(3), N, S("zzz")]))

    def run(self, n, start, weights, classes=()):
        names, ws = zip(*weights.items())
        try:
            for c in start:
                self.new(c)
            for _ in range(n):
                k = self.r.choices(names, ws)[0]
                if k == "container":
                    self.container(classes)
                elif k == "new":
                    self.new(self.r.choice(start))
                else:
                    getattr(self, k)()
        except (KeyError, IndexError, AttributeError, TypeError):
            pass        # what was observed does not have the shape the specification gives it; judged so far
        except Exception as err:  # noqa: BLE001
            self.out.append({"op": "broken by " + type(err).__name__})     # an observation was impossible
        return self.out


def silent(c, ty):
    """places where near-misses would touch inputs about which nothing is said"""
    return any(a.get("c") == "MultiFormatSchema" for a in alts(ty))


def has_handle(v):
    return v["t"] == "h" or (v["t"] == "a" and any(map(has_handle, v["v"]))) or (v["t"] == "o" and any(has_handle(x) for _, x in v["v"]))


def history(job):
    seed, n, start, weights, kw = job
    classes = kw.pop("classes", ()) if kw else ()
    return Live(seed, **kw).run(n, start, weights, classes)
