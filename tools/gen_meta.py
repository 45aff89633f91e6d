"""One-off helper that wrote the first draft of spec/Meta.tla from the code.  Not used by any check:
Meta.tla is reviewed against the AsyncAPI 3.0 documents and maintained by hand since."""
import importlib, pkgutil, typing, types, sys, warnings
warnings.simplefilter("ignore")
import asyncapi3
from pydantic import BaseModel, RootModel, AnyUrl, HttpUrl
from pydantic_core import PydanticUndefined
from asyncapi3.models.helpers import EmailStr
OVERRIDE={("AsyncAPI3","asyncapi"):"SemVerT",("CorrelationID","location"):"RtExprT",
("IBMMQServerBindings","heart_beat_interval"):"IntRange(0, 999999)",("IBMMQChannelBindings","max_msg_length"):"IntRange(0, 104857600)",
("IBMMQMessageBindings","expiry"):"IntMin(0)",("KafkaChannelBindings","partitions"):"IntMin(1)",("KafkaChannelBindings","replicas"):"IntMin(1)",
("AMQPOperationBindings","expiration"):"IntMin(0)",("SolaceOperationBindings","priority"):"Union(<<IntRange(0, 255), Obj(\"Schema\"), RefT>>)"}
mods=[importlib.import_module(m.name) for m in pkgutil.walk_packages(asyncapi3.__path__,"asyncapi3.")]
cls={}
for m in mods:
    for n,o in vars(m).items():
        if isinstance(o,type) and issubclass(o,BaseModel) and o.__module__==m.__name__ and "[" not in n: cls[n]=o
for n in ("ExtendableBaseModel","NonExtendableBaseModel","PatternedRootModel"): cls.pop(n)
def q(s): return '"'+s+'"'
def val(v):
    if v is None: return "N"
    if isinstance(v,bool): return "B(%s)"%str(v).upper()
    if isinstance(v,int): return "I(%d)"%v
    return "S(%s)"%q(v)
def ty(a,meta=()):
    ml=[m.max_length for m in meta if hasattr(m,"max_length")]
    if a is str: return "StrMax(%d)"%ml[0] if ml else "StrT"
    if a is int: return "IntT"
    if a is bool: return "BoolT"
    if a is AnyUrl: return "UrlT"
    if a is HttpUrl: return "HttpUrlT"
    if a is EmailStr: return "EmailT"
    if a is typing.Any: return "AnyT"
    o=typing.get_origin(a); g=typing.get_args(a)
    if o is typing.Literal: return "Lit(<<%s>>)"%", ".join(map(val,g))
    if o is list: return "ListT(%s)"%ty(g[0])
    if o is dict: assert g[0] is str; return "DictT(%s)"%ty(g[1])
    if o in (typing.Union,types.UnionType):
        gs=[x for x in g if x is not type(None)]
        if len(gs)==1: return ty(gs[0],meta)
        return "Union(<<%s>>)"%", ".join(ty(x,meta) for x in gs)
    if a.__name__=="Reference": return "RefT"
    return 'Obj(%s)'%q(a.__name__)
out=[]
for n,o in sorted(cls.items(), key=lambda x:(x[1].__module__.startswith("asyncapi3.models.bindings"), x[1].__module__,)):
    if issubclass(o,RootModel):
        a=o.model_fields["root"].annotation
        out.append("  %s |-> MapOf(%s)"%(n,ty(typing.get_args(a)[1]))); continue
    x=o.model_config.get("extra"); names=[b.__name__ for b in o.__mro__]
    k="Ext" if "ExtendableBaseModel" in names else "Closed" if "NonExtendableBaseModel" in names else "Open"
    fs=[]
    for f,i in o.model_fields.items():
        if i.exclude: continue
        w=i.alias or f
        t=OVERRIDE.get((n,f)) or ty(i.annotation,i.metadata)
        nullable=type(None) in typing.get_args(i.annotation)
        if i.is_required():
            fs.append("Req(%s, %s, %s)"%(q(f),q(w),t)); assert not nullable
        elif i.default is None:
            fs.append("%s(%s, %s, %s)"%("Opt" if i.exclude_if else "Keep",q(f),q(w),t)); assert nullable
        else:
            if nullable: t="Nullable(%s)"%t
            fs.append("Def(%s, %s, %s, %s)"%(q(f),q(w),t,val(i.default)))
    out.append("  %s |-> %s(<<%s>>)"%(n,k,("\n    "+",\n    ".join(fs)) if fs else ""))
print("""-------------------------------- MODULE Meta --------------------------------
(* The object model of AsyncAPI 3.0 and its protocol bindings as implemented: *)
(* every class, its fields (Python name, AsyncAPI name, type), what it does   *)
(* with unknown fields, and the item type of every named collection.          *)
EXTENDS Types

Meta == TLCEval([
"""+",\n".join(out)+"\n]\n=============================================================================")
