------------------------------- MODULE Types -------------------------------
(* Vocabulary of the object model table: type expressions, field and class  *)
(* records, and the encoding of JSON-like values.                           *)
EXTENDS Integers, Sequences

(* ---- values: always a record whose first component "t" is the kind ----  *)
(* n null | b boolean | i integer | f other number | s string | a array     *)
(* o object: v is a sequence of <<key, value>>                              *)
(* typed values: m model (c class, v fields, x extensions), M named         *)
(* collection (c class, v sequence of <<key, value>>)                       *)
N == [t |-> "n", v |-> "null"]
B(b) == [t |-> "b", v |-> b]
I(i) == [t |-> "i", v |-> i]
F(f) == [t |-> "f", v |-> f]         \* a non-integral number, by its text
S(s) == [t |-> "s", v |-> s]
A(seq) == [t |-> "a", v |-> seq]
O(pairs) == [t |-> "o", v |-> pairs]

(* ---- type expressions ---- *)
AnyT == [k |-> "any"]
NullT == [k |-> "null"]
StrT == [k |-> "str"]
StrMax(n) == [k |-> "strmax", n |-> n]
StrBytes(n) == [k |-> "strbytes", n |-> n]      \* at most n bytes in UTF-8
IntT == [k |-> "int"]
IntMin(lo) == [k |-> "intmin", lo |-> lo]
IntRange(lo, hi) == [k |-> "intrange", lo |-> lo, hi |-> hi]
BoolT == [k |-> "bool"]
UrlT == [k |-> "url"]
HttpUrlT == [k |-> "httpurl"]
EmailT == [k |-> "email"]
SemVerT == [k |-> "semver"]
RtExprT == [k |-> "rtexpr"]
Lit(vs) == [k |-> "lit", vs |-> vs]
ListT(of) == [k |-> "list", of |-> of]
DictT(of) == [k |-> "dict", of |-> of]
Obj(c) == [k |-> "obj", c |-> c]
Union(alts) == [k |-> "union", alts |-> alts]
RefT == Obj("Reference")

(* ---- fields: Python name, wire name, type ---- *)
(* Req required; Opt optional, null when absent, omitted from output when   *)
(* null; Keep optional, null when absent, always written; Def optional with *)
(* a non-null default that is written.                                      *)
Alts(ty) == IF ty.k = "union" THEN ty.alts ELSE <<ty>>
Nullable(ty) == Union(Alts(ty) \o <<NullT>>)
Req(py, w, ty) == [py |-> py, w |-> w, ty |-> ty, req |-> TRUE, def |-> N, keep |-> FALSE]
Opt(py, w, ty) == [py |-> py, w |-> w, ty |-> Nullable(ty), req |-> FALSE, def |-> N, keep |-> FALSE]
Keep(py, w, ty) == [py |-> py, w |-> w, ty |-> Nullable(ty), req |-> FALSE, def |-> N, keep |-> TRUE]
Def(py, w, ty, d) == [py |-> py, w |-> w, ty |-> ty, req |-> FALSE, def |-> d, keep |-> FALSE]

(* ---- classes ---- *)
(* x: "ext" extensions x-..., "no" no unknown fields, "any" all unknown     *)
(* fields kept, "map" named collection                                      *)
Ext(fs) == [x |-> "ext", f |-> fs, of |-> AnyT]
Closed(fs) == [x |-> "no", f |-> fs, of |-> AnyT]
Open(fs) == [x |-> "any", f |-> fs, of |-> AnyT]
MapOf(ty) == [x |-> "map", f |-> <<>>, of |-> ty]
=============================================================================
