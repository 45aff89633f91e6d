"""The real code: classes by name, observation of live objects, guarded calls."""
import importlib, inspect, json, logging, os, pkgutil, signal, sys, warnings

import tlc
from codec import enc, dec, N

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tlc.scratch(), "pyc")
import asyncapi3  # noqa: E402

assert os.path.realpath(asyncapi3.__file__).startswith("/repo/"), asyncapi3.__file__
import pydantic  # noqa: E402
from pydantic import AnyUrl, BaseModel, RootModel, ValidationError  # noqa: E402

CLASSES = {}
for _m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."):
    _mod = importlib.import_module(_m.name)
    for _n, _c in vars(_mod).items():
        if inspect.isclass(_c) and issubclass(_c, BaseModel) and _c.__module__.startswith("asyncapi3"):
            CLASSES[_c.__name__] = _c
from asyncapi3.validators import UnifiedReferencesValidator, TagsRefValidator, ExternalDocsRefValidator  # noqa: E402
from asyncapi3.validators.utils import resolve_reference  # noqa: E402,F401

VALIDATORS = {"Unified": UnifiedReferencesValidator, "Tags": TagsRefValidator, "Docs": ExternalDocsRefValidator}
for _n in dir(asyncapi3.validators):
    if _n.endswith("RefValidator") and _n not in ("TagsRefValidator", "ExternalDocsRefValidator"):
        VALIDATORS[_n] = getattr(asyncapi3.validators, _n)
META = tlc.model()["meta"]
PYNAMES = {c: [f["py"] for f in META[c]["f"]] for c in META}
MISSING = object()
URLS = tuple(getattr(pydantic, n) for n in ("AnyUrl", "HttpUrl") if inspect.isclass(getattr(pydantic, n)))


# ---- processors that write what they see into a log (spec/Processors.tla says what each does)
RUNS = []
_OWN = {}


def processor(name):
    if name in VALIDATORS:
        return VALIDATORS[name]
    if name in _OWN:
        return _OWN[name]
    what, x = name.split("-", 1)

    def __call__(self, spec):
        RUNS.append((name, spec, observe(spec)))
        chans = spec.channels
        if what == "Title":
            spec.info.title = spec.info.title + x
        elif what == "Chan" and chans is not None:
            chans[x] = {}
        elif what == "Drop" and chans is not None and x in chans:
            del chans[x]
        elif what == "Fail":
            raise ValueError("no: " + x)
        elif what == "Bad":
            spec.info.title = 3
        elif what == "Veto" and spec.info.title.endswith(x):
            raise ValueError("no: " + x)
        elif what == "Make":
            d = CLASSES["AsyncAPI3"](info={"title": x, "version": "1"}, extra_validators=[processor("Log-" + x)])
            d.id = "urn:in:" + x
        elif what == "Nest":
            try:
                CLASSES["AsyncAPI3"](info={"title": x, "version": "1"}, channels={"c": {"$ref": "#/channels/none"}}, extra_validators=[UnifiedReferencesValidator])
            except ValidationError:
                return spec
            raise AssertionError("accepted inside a processor")
        elif what == "Need" and (chans is None or x not in chans):
            raise ValueError("no: " + x)
        return spec
    _OWN[name] = type(name.replace("-", "_"), (), {"__call__": __call__, "name": name})
    return _OWN[name]


def procname(p):
    for n, v in VALIDATORS.items():
        if p is v:
            return n
    return getattr(p, "name", p.__name__)


def is_document(o):
    return type(o).__name__ == "AsyncAPI3"


def lists_of(o):
    return [[procname(p) for p in (getattr(o, n, None) or [])] if is_document(o) else [] for n in ("extra_converters", "extra_validators")]


INSIDE = []      # the objects around the one looked at, so that an object that contains itself is seen as that


def observe(o):
    """The state of an object as the specification sees it."""
    if type(o) not in (list, dict) and not isinstance(o, BaseModel):
        return {"t": "s", "v": str(o)} if isinstance(o, URLS) else enc(o)
    if any(x is o for x in INSIDE):
        return {"t": "?", "v": "contains itself"}
    INSIDE.append(o)
    try:
        return _observe(o)
    finally:
        INSIDE.pop()


def _observe(o):
    if isinstance(o, BaseModel):
        c = type(o).__name__
        if c not in META or CLASSES.get(c) is not type(o):
            return {"t": "?", "v": c}
        if isinstance(o, RootModel):
            if META[c]["x"] != "map" or type(o.root) is not dict:
                return {"t": "?", "v": c}
            return {"t": "M", "c": c, "v": [[k if isinstance(k, str) else repr(k), observe(v)] for k, v in o.root.items()]}
        vals = []
        for n in PYNAMES[c]:
            v = o.__dict__.get(n, MISSING)
            vals.append({"t": "?", "v": "no attribute " + n} if v is MISSING else observe(v))
            if v is not MISSING and getattr(o, n, MISSING) is not v:
                vals[-1] = {"t": "?", "v": "attribute " + n}
        return {"t": "m", "c": c, "v": vals, "x": [[k, observe(v)] for k, v in (o.model_extra or {}).items()]}
    if type(o) is list:
        return {"t": "a", "v": [observe(x) for x in o]}
    return {"t": "o", "v": [[k if isinstance(k, str) else repr(k), observe(v)] for k, v in o.items()]}


def jsonable(v):
    """Python-mode output -> tagged (URLs by their text)."""
    return observe(v)


def fieldsets(o):
    if not isinstance(o, (BaseModel, list, dict)) or any(x is o for x in INSIDE):
        return 0
    INSIDE.append(o)
    try:
        if isinstance(o, BaseModel):
            return [sorted(o.model_fields_set), {k: fieldsets(v) for k, v in list(o.__dict__.items()) + list((o.model_extra or {}).items())}]
        if isinstance(o, list):
            return [fieldsets(x) for x in o]
        return {str(k): fieldsets(v) for k, v in o.items()}
    finally:
        INSIDE.pop()


def stamp(o):
    """Everything observable about an object, for before/after comparison."""
    return json.dumps([observe(o), fieldsets(o), procs_of(o)], sort_keys=True)


def procs_of(o):
    return [[p.__name__ for p in (getattr(o, n, None) or [])] if is_document(o) else [] for n in ("extra_converters", "extra_validators")]


def c_has_procs(o):
    return is_document(o) and (getattr(o, "extra_validators", None) is not None or getattr(o, "extra_converters", None) is not None)


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGPROF, _alarm)
LIMIT = 30      # seconds of processor time, so that a busy machine does not matter
HANGS = 0


def call(fn, *a, strict=True, **kw):
    """-> (outcome, result).  strict: a rejection must be a pydantic ValidationError."""
    signal.setitimer(signal.ITIMER_PROF, LIMIT)
    try:
        return "ok", fn(*a, **kw)
    except (ValidationError if strict else ValueError) as e:
        return "rej", e
    except KeyError as e:
        return "key", e
    except Hang:
        global HANGS
        HANGS += 1
        return "crash: no answer within %d s" % LIMIT, None
    except Exception as e:  # noqa: BLE001
        return "crash: " + type(e).__name__, e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


HANDLER = Warnings()
_root = logging.getLogger()
_root.handlers[:] = [HANDLER]
_root.setLevel(logging.WARNING)


SUBS = {}


def with_defaults(procs):
    """documents whose validators are part of their class"""
    if procs not in SUBS:
        base = CLASSES["AsyncAPI3"]
        SUBS[procs] = type("AsyncAPI3", (base,), {"__module__": __name__, "__annotations__": {"extra_validators": list}, "extra_validators": pydantic.Field(default_factory=lambda: [VALIDATORS[p] for p in procs], exclude=True)})
    return SUBS[procs]


def build(c, data, how="data", procs=(), sub=False):
    cls = CLASSES[c]
    if procs and how in ("json", "bytes"):     # processors have no JSON form
        if sub:
            return with_defaults(tuple(procs)).model_validate_json(json.dumps(data))
        o = build(c, data, how)
        o.extra_validators = [VALIDATORS[p] for p in procs]
        return o
    if procs:
        data = dict(data)
        data["extra_validators"] = [VALIDATORS[p] for p in procs]
    if how == "json":
        return cls.model_validate_json(json.dumps(data))
    if how == "bytes":
        return cls.model_validate_json(json.dumps(data, ensure_ascii=False, indent=1).encode())
    if how == "kw" and isinstance(data, dict) and META[c]["x"] != "map":
        return cls(**data)
    if how == "kw" and META[c]["x"] == "map":
        return cls(data)
    return cls.model_validate(data)


def outputs(o):
    """python-mode and JSON output of an object, tagged."""
    py = o.model_dump()
    js = json.loads(o.model_dump_json())
    return py, js


def load_event(c, arg, how="data", full=True):
    """A fresh object from data: outcome, object, written forms, reload."""
    e = {"op": "load", "c": c, "arg": arg, "how": how}
    e["r"], o = call(build, c, dec(arg), how)
    if e["r"] != "ok":
        return e
    e["val"] = observe(o)
    if full:
        add_written(e, o)
    return e


SAME = {"t": "=", "v": ""}


def same(x, y):
    return SAME if x == y else x


def add_written(e, o):
    """output, JSON output, and what comes of reading it back"""
    if "val" not in e:
        e["val"] = observe(o)
    r, res = call(outputs, o)
    if r != "ok":
        e["out"] = {"t": "?", "v": r}
        return
    py, js = res
    e["out"] = jsonable(py)
    e["outj"] = same(enc(js), e["out"])
    cls = type(o)
    # reload, alternately from python-mode output, JSON data and JSON text
    k = (len(json.dumps(js)) + len(e.get("c", ""))) % 3
    src = [lambda: cls.model_validate(py), lambda: cls.model_validate(js), lambda: cls.model_validate_json(o.model_dump_json())][k]
    r, o2 = call(src)
    e["re"] = {"r": r}
    if r == "ok":
        r3, out2 = call(o2.model_dump)
        if c_has_procs(o):      # processors are configuration, not part of the written form
            o = o.model_copy(update={"extra_validators": None, "extra_converters": None})
        e["re"].update(val=same(observe(o2), e["val"]), eq=bool(o2 == o) and not (o2 != o),
                       out=same(jsonable(out2), e["out"]) if r3 == "ok" else {"t": "?", "v": r3})
