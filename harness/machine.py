"""Executes scripts of operations on the real code and records what happened.

A script is a list of operation records as the trace specification (Conform.tla) reads them, without the
outcomes; `Machine.do` performs one and returns it completed.  Running a recorded history again
repeats it: a history is its own replay."""
import copy, json, pickle, re

import real
from codec import *
from real import META, CLASSES, VALIDATORS, call, observe, stamp

PY = {c: {n: f["py"] for f in META[c]["f"] for n in (f["py"], f["w"])} for c in META}

MODEL, MAP = real.BaseModel, real.RootModel


class Machine:
    def __init__(self):
        self.heap, self.seen, self.insts, self.sets = {}, {}, {}, {}

    # -- navigation
    def part(self, o, path, kinds=None):
        for s in path:
            o = self.step(o, s)
        if kinds and not isinstance(o, kinds):
            raise KeyError("no such part")
        return o

    @staticmethod
    def step(o, s):
        if isinstance(o, list):
            return o[s - 1]
        if isinstance(o, dict):
            return o[s]
        c = type(o).__name__
        if META[c]["x"] == "map":
            return o[s]
        return getattr(o, PY[c][s])

    # -- one operation
    def do(self, ev):
        e = {k: v for k, v in ev.items() if k not in ("r", "val", "same", "also", "out", "outj", "re", "warned", "got", "len", "keys", "in", "res", "ne", "err", "size", "mapkey", "hash", "at", "was", "eq", "rs", "log", "pl", "said", "hits", "sets", "apart")}
        real.RUNS.clear()
        getattr(self, "op_" + e["op"])(e)
        return e

    def others(self, e, me=None):
        """objects other than the one an operation is about that look different now"""
        also = []
        for i, o in self.heap.items():
            if i == me:
                continue
            v, f = observe(o), real.fieldsets(o)
            if v != self.seen[i] or f != self.sets[i]:
                also.append({"id": i, "val": v, "sets": f == self.sets[i]})
                self.seen[i], self.sets[i] = v, f
        if me is not None:
            self.sets[me] = real.fieldsets(self.heap[me])
        e["also"] = also
        if real.RUNS and "log" not in e:
            e["log"] = [{"p": n, "val": v} for n, _, v in real.RUNS]

    def op_load(self, e):
        e["r"], o = call(real.build, e["c"], dec(e["arg"]), e.get("how", "data"))
        if e["r"] == "ok":
            e["val"] = observe(o)
            if e.get("full", 1):
                real.add_written(e, o)

    def op_verdict(self, e):
        real.HANDLER.got.clear()
        e["r"], o = call(real.build, "AsyncAPI3", dec(e["arg"]), e.get("how", "data"), e["procs"], True)
        e["warned"] = warned(e["procs"][0], real.HANDLER.got, dec(e["arg"])) if e["r"] == "ok" and len(e["procs"]) == 1 else []

    def op_new(self, e):
        arg = dec(e["arg"], self.heap)
        e["r"], o = call(real.build, e["c"], arg, e.get("how", "data"), e.get("procs") or ())
        if e["r"] == "ok":
            self.heap[e["id"]] = o
            self.seen[e["id"]] = e["val"] = observe(o)
        self.others(e, e["id"] if e["r"] == "ok" else None)

    def mutate(self, e, fn, kinds, strict=True):
        root = self.heap[e["id"]]
        before = stamp(root)
        e["r"], err = call(fn, self.part(root, e.get("path", []), kinds), strict=strict)
        e["same"] = stamp(root) == before
        self.seen[e["id"]] = e["val"] = observe(root)
        self.others(e, e["id"])

    def op_set(self, e):
        arg = dec(e["arg"], self.heap)
        target = self.part(self.heap[e["id"]], e["path"], MODEL)
        known = e["name"] in PY[type(target).__name__] or META[type(target).__name__]["x"] == "map"
        was = sorted(target.model_fields_set)
        self.mutate(e, lambda o: setattr(o, e["name"], arg), MODEL, strict=known)
        e["said"] = [was, sorted(target.model_fields_set)]

    def op_put(self, e):
        arg = dec(e["arg"], self.heap)

        def fn(o):
            o[e["key"]] = arg
        self.mutate(e, fn, MAP)

    def op_del(self, e):
        def fn(o):
            del o[e["key"]]
        self.mutate(e, fn, MAP)

    def op_append(self, e):
        arg = dec(e["arg"])
        self.mutate(e, lambda o: o.append(arg), list)

    # -- documents with processors
    def ran(self, e, o=None):
        if real.RUNS:
            e["log"] = [{"p": n, "val": v, "me": s is o} for n, s, v in real.RUNS]

    def keep(self, e, i, r, o):
        e["r"] = r
        if r == "ok":
            self.heap[i] = o
            self.seen[i] = e["val"] = observe(o)
            e["pl"] = real.lists_of(o)
        self.ran(e, o)
        self.others(e, i if r == "ok" else None)

    def op_pnew(self, e):
        d = dec(e["arg"], self.heap)
        for n, k in (("extra_converters", "convs"), ("extra_validators", "vals")):
            if e[k] or e.get("given"):
                d[n] = [real.processor(p) for p in e[k]]
        self.keep(e, e["id"], *call(real.build, "AsyncAPI3", d, "kw" if e.get("how") == "kw" else "data"))

    def op_pagain(self, e):
        doc = self.heap[e["id"]]
        self.keep(e, e["to"], *call(type(doc).model_validate, doc))

    def op_build(self, e):
        kw = {k: dec(v, self.heap) for k, v in e["args"] + e["kw"]}
        for n, k in (("extra_converters", "convs"), ("extra_validators", "vals")):
            if e[k] != ["default"]:
                kw[n] = [real.processor(p) for p in e[k]]
        pos = []
        if e.get("pos"):
            for n in ("title", "version", "description", "terms_of_service", "contact", "license", "tags", "external_docs"):
                if n not in kw:
                    break
                pos.append(kw.pop(n))
        self.keep(e, e["id"], *call(CLASSES["AsyncAPI3"].as_builder, *pos, **kw))

    def pchange(self, e, fn):
        doc = self.heap[e["id"]]
        before = stamp(doc)
        e["r"], _ = call(fn, doc, strict=e["op"] != "pset" or e["name"] in PY["AsyncAPI3"])
        e["same"] = stamp(doc) == before
        e["pl"] = real.lists_of(doc)
        self.seen[e["id"]] = e["val"] = observe(doc)
        self.ran(e, doc)
        self.others(e, e["id"])

    def op_pset(self, e):
        arg = dec(e["arg"], self.heap)
        self.pchange(e, lambda doc: setattr(doc, e["name"], arg))

    def op_plist(self, e):
        ps = [real.processor(p) for p in e["list"]]
        self.pchange(e, lambda doc: setattr(doc, "extra_converters" if e["which"] == "convs" else "extra_validators", ps))

    def op_attach(self, e):
        getattr(self.heap[e["id"]], "extra_converters" if e["which"] == "convs" else "extra_validators").append(real.processor(e["p"]))
        e["val"] = observe(self.heap[e["id"]])
        self.others(e, e["id"])

    def op_lists(self, e):
        e["pl"] = real.lists_of(self.heap[e["id"]])

    def op_step(self, e):
        """an object from data, one attribute assigned"""
        e["r"], o = call(real.build, e["c"], dec(e["arg"]), e.get("how", "data"))
        if e["r"] != "ok":
            e["at"] = "build"
            return
        e["at"] = "set"
        before, was = stamp(o), sorted(o.model_fields_set)
        e["r"], _ = call(setattr, o, e["name"], dec(e["to"]))
        e["same"] = stamp(o) == before
        e["said"] = [was, sorted(o.model_fields_set)]
        if e["r"] == "ok":
            e["val"] = observe(o)

    def op_sweep(self, e):
        """the values one after the other in a field; r is "ok" only if the object shows the value as given"""
        c, base, f = e["c"], dec(e["base"]), e["f"]
        py = PY[c][f]
        e["rs"] = []
        if e["mode"] == "set":
            r, o = call(real.build, c, base)
            if r != "ok":
                return
        for v in e["vals"]:
            x = dec(v)
            if e["mode"] == "set":
                r, _ = call(setattr, o, py, x)
            else:
                r, o = call(real.build, c, {**{k: w for k, w in base.items() if k != f}, f: x}, e.get("how", "data"))
            if r == "ok" and observe(getattr(o, py, None)) != v:
                r = "another value"
            e["rs"].append(r)
            if real.HANGS >= 2:
                break

    def op_look(self, e):
        o = self.part(self.heap[e["id"]], e["path"], MAP)
        k = e["key"]
        e["in"] = k in o
        r, got = call(lambda: o[k])
        e["got"] = observe(got) if r == "ok" else {"t": "KeyError" if r == "key" else r, "v": ""}
        e["len"] = len(o)
        r, keys = call(lambda: list(o))
        e["keys"] = [str(x) for x in keys] if r == "ok" else [r]

    def op_dump(self, e):
        o = self.part(self.heap[e["id"]], e["path"], MODEL)
        before = stamp(o)
        real.add_written(e, o)
        e["same"] = stamp(o) == before

    def op_eq(self, e):
        a, b = self.heap[e["a"]], self.heap[e["b"]]
        e["res"], e["ne"] = bool(a == b), bool(a != b)

    def op_rebuild(self, e):
        """the class called with the current field values and extensions"""
        o = self.part(self.heap[e["id"]], e["path"], MODEL)
        cls, c = type(o), type(o).__name__
        before = stamp(o)
        e["was"] = observe(o)
        if META[c]["x"] == "map":
            make = lambda: cls(dict(o.root))
        else:
            kw = {f["py"]: getattr(o, f["py"]) for f in META[c]["f"]}
            kw.update(o.model_extra or {})
            if real.c_has_procs(o):
                kw.update(extra_validators=o.extra_validators, extra_converters=o.extra_converters)
            make = lambda: cls(**kw)
        e["r"], n = call(make)
        if e["r"] == "ok":
            e["val"] = real.same(observe(n), e["was"])
            e["eq"] = bool(n == o) and bool(o == n) and not (n != o)
            r, e["out"] = call(lambda: real.same([n.model_dump(), n.model_dump_json()], [o.model_dump(), o.model_dump_json()]))
            if r != "ok" or e["out"] is not real.SAME:
                e["out"] = {"t": "?", "v": "differs"}
        e["same"] = stamp(o) == before

    def op_ctor(self, e):
        e["r"], o = call(getattr(CLASSES["Reference"], e["ctor"]), e["name"])
        if e["r"] == "ok":
            self.heap[e["id"]] = o
            self.seen[e["id"]] = observe(o)
        e["val"] = observe(o) if e["r"] == "ok" else N
        self.others(e, e["id"])

    def op_alike(self, e):
        a, b = self.heap[e["a"]], self.heap[e["b"]]
        e["res"], e["ne"], e["size"], e["in"], e["mapkey"], e["hash"] = bool(a == b), bool(a != b), len({a, b}), b in {a}, {a: 1}.get(b) == 1, hash(a) == hash(b)

    def op_adopt(self, e):
        o = self.heap[e["id"]]
        edit(self, o, e["edit"])
        self.seen[e["id"]] = e["val"] = observe(o)
        self.sets[e["id"]] = real.fieldsets(o)
        e.setdefault("procs", [])

    def op_resolve(self, e):
        """each reference followed by hand"""
        e["r"], doc = ("ok", self.heap[e["id"]]) if "id" in e else call(real.build, "AsyncAPI3", dec(e["arg"]), e.get("how", "data"))
        e["hits"] = []
        if e["r"] != "ok":
            return
        before = stamp(doc)
        where = places(doc)
        for q in e["refs"]:
            real.HANDLER.got.clear()
            seen = set(q["seen"])
            r, x = call(real.resolve_reference, *([q["ref"], doc] + [seen] * q["given"]), strict=False)
            h = {"r": "none" if r == "ok" and x is None else r, "seen": sorted(seen)}
            if h["r"] == "ok":
                try:
                    got, kind, path = x
                    h.update(val=observe(got), typed=type(got) is kind, path=path, at=where.get(id(got), ["nowhere"]))
                except (TypeError, ValueError):
                    h["r"] = "another result"
            elif h["r"] == "none":
                h["warned"] = warned("Unified", real.HANDLER.got, [doc.model_dump(), {"ref": q["ref"]}])
            e["hits"].append(h)
            if real.HANGS >= 2:
                break
        e["same"] = stamp(doc) == before

    def op_copy(self, e):
        root = self.heap[e["id"]]
        o = self.part(root, e["path"], MODEL)
        before = stamp(root)
        e["r"], n = call({"deepcopy": lambda: copy.deepcopy(o), "model_copy": lambda: o.model_copy(deep=True), "pickle": lambda: pickle.loads(pickle.dumps(o))}[e["how"]])
        if e["r"] == "ok":
            e["val"] = observe(n)
            e["eq"] = bool(n == o) and bool(o == n) and not (n != o)
            r, e["out"] = call(lambda: real.same([n.model_dump(), n.model_dump_json()], [o.model_dump(), o.model_dump_json()]))
            if r != "ok" or e["out"] is not real.SAME:
                e["out"] = {"t": "?", "v": "differs"}
            e["sets"] = real.fieldsets(n) == real.fieldsets(o)
            e["pl"] = real.lists_of(n)
            e["apart"] = not set(places(n)) & set(places(root))
            self.heap[e["to"]] = n
            self.seen[e["to"]] = e["val"]
        e["same"] = stamp(root) == before
        self.others(e, e["to"] if e["r"] == "ok" else None)

    def op_check(self, e):
        doc = self.heap[e["id"]]
        k = (e["p"], e.get("inst", 0))
        if k not in self.insts:
            self.insts[k] = VALIDATORS[e["p"]]()
        before = stamp(doc)
        real.HANDLER.got.clear()
        e["r"], x = call(self.insts[k], doc, strict=False)
        e["back"] = x is doc
        e["same"] = stamp(doc) == before
        e["warned"] = warned(e["p"], real.HANDLER.got, doc.model_dump()) if e["r"] == "ok" else []


def edit(m, o, ed):
    """changes that go around the public interface (shared objects, contents of lists and dictionaries)"""
    if ed["kind"] == "share":      # the same object at a second place
        x = m.part(o, ed["from"])
    else:                          # any value
        x = dec(ed["arg"], m.heap)
    at, last = m.part(o, ed["to"][:-1]), ed["to"][-1]
    if isinstance(at, list):
        if last > len(at):
            at.append(x)
        else:
            at[last - 1] = x
    elif isinstance(at, dict):
        at[last] = x
    elif META[type(at).__name__]["x"] == "map":
        at.root[last] = x
    else:
        at.__dict__[PY[type(at).__name__].get(last, last)] = x


def places(o, path=(), out=None):
    """where the objects, collections, lists and dictionaries of an object stand, by identity"""
    out = {} if out is None else out
    if isinstance(o, (real.BaseModel, list, dict)) and id(o) not in out:
        out[id(o)] = list(path)
        if isinstance(o, real.RootModel):
            for k, v in o.root.items():
                places(v, path + (k,), out)
        elif isinstance(o, real.BaseModel):
            wire = {f["py"]: f["w"] for f in META.get(type(o).__name__, {"f": []})["f"]}
            for k, v in list(o.__dict__.items()) + list((o.model_extra or {}).items()):
                if k not in ("extra_validators", "extra_converters"):
                    places(v, path + (wire.get(k, k),), out)
        elif isinstance(o, list):
            for i, v in enumerate(o):
                places(v, path + (i,), out)
        else:
            for k, v in o.items():
                places(v, path + (k,), out)
    return out


def refstrings(d, out):
    if isinstance(d, dict):
        for k, v in d.items():
            if k in ("$ref", "ref") and isinstance(v, str):
                out.add(v)
            else:
                refstrings(v, out)
    elif isinstance(d, list):
        for v in d:
            refstrings(v, out)


def warned(p, messages, data):
    """the reference strings of a document that the log messages name: for the unified validator every one
    that occurs in a message, for the others all that occur in each message"""
    refs = set()
    refstrings(data, refs)
    if p == "Unified":
        return sorted(r for r in refs if r and any(r in msg for msg in messages))
    out = [sorted(r for r in refs if r in msg) for msg in messages]
    return [rs for rs in out if rs]


def run_script(script):
    m = Machine()
    out = []
    for ev in script:
        if real.HANGS >= 2:
            break
        try:
            out.append(m.do(ev))
        except (KeyError, IndexError, AttributeError, TypeError):
            # the object or part the operation is about is not there (its creation was rejected, or what
            # was observed before is already wrong): Conform sees whether it should be there
            if ev["op"] == "adopt":
                break
            args = json.dumps([ev.get("arg"), ev.get("args"), ev.get("kw")])
            made = ev["op"] in MAKING or (ev["op"] == "resolve" and "id" not in ev)
            out.append({"op": "stuck", "ids": [ev[k] for k in ("id", "a", "b") if k in ev and not made] + [int(x) for x in HANDLE.findall(args)], "path": ev.get("path", []),
                        "of": 0 if made else ev.get("id", 0), "want": {"put": ["M"], "del": ["M"], "look": ["M"], "append": ["a"]}.get(ev["op"], ["m", "M"])})
            break
        except Exception as err:  # noqa: BLE001
            out.append({"op": "broken by " + type(err).__name__})     # an observation was impossible
            break
    return out


MAKING = ("new", "pnew", "build", "ctor", "load", "step", "sweep", "verdict")
HANDLE = re.compile(r'"t": "h", "v": (\d+)')
