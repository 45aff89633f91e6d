---------------------------- MODULE ObjectModel ----------------------------
(* Meaning of the object model table: what data each type accepts (Parse),   *)
(* which object results, and how objects are written out (Dump).             *)
EXTENDS Meta, Text, TLC, FiniteSets, SequencesExt

Classes == DOMAIN Meta

(* field index by either name *)
FieldIx == TLCEval([c \in Classes |->
  LET f == Meta[c].f IN
  [n \in {f[i].w : i \in DOMAIN f} \cup {f[i].py : i \in DOMAIN f} |->
      CHOOSE i \in DOMAIN f : f[i].w = n \/ f[i].py = n]])

ASSUME \A c \in Classes : \A i, j \in DOMAIN Meta[c].f :
   i # j => {Meta[c].f[i].w, Meta[c].f[i].py} \cap {Meta[c].f[j].w, Meta[c].f[j].py} = {}

IsField(c, n) == n \in DOMAIN FieldIx[c]

(* ---- equality of values ---- *)
Keys(pairs) == {pairs[i][1] : i \in DOMAIN pairs}
RECURSIVE Same(_, _), SameSet(_, _), SamePairs(_, _)
Same(a, b) ==
  CASE a.t = "u" /\ b.t = "o" -> SameSet(a.v, b.v)
    [] a.t = "o" /\ b.t = "u" -> SameSet(b.v, a.v)
    [] a.t # b.t -> FALSE
    [] a.t = "u" -> SameSet(a.v, b.v)
    [] a.t = "a" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
    [] a.t = "o" -> SamePairs(a.v, b.v)
    [] a.t = "M" -> a.c = b.c /\ SamePairs(a.v, b.v)
    [] a.t = "m" -> a.c = b.c /\ (\A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])) /\ SameSet(a.x, b.x)
    [] OTHER -> a.v = b.v
SamePairs(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : p[i][1] = q[i][1] /\ Same(p[i][2], q[i][2])
SameSet(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : \E j \in 1..Len(q) : p[i][1] = q[j][1] /\ Same(p[i][2], q[j][2])

(* equality as users see it: the order of a map does not matter.  Whether     *)
(* numbers of different kinds (1, 1.0, true) are equal is left open: they     *)
(* are alike for one reading (lax) and not for the other.                     *)
Number == {"i", "j", "f", "b"}
RECURSIVE Alike(_, _, _), AlikeSet(_, _, _)
Alike(a, b, lax) ==
  CASE a.t # b.t -> lax /\ a.t \in Number /\ b.t \in Number
    [] a.t = "f" -> lax \/ a.v = b.v
    [] a.t = "a" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Alike(a.v[i], b.v[i], lax)
    [] a.t = "o" -> AlikeSet(a.v, b.v, lax)
    [] a.t = "M" -> a.c = b.c /\ AlikeSet(a.v, b.v, lax)
    [] a.t = "m" -> a.c = b.c /\ (\A i \in 1..Len(a.v) : Alike(a.v[i], b.v[i], lax)) /\ AlikeSet(a.x, b.x, lax)
    [] OTHER -> a.v = b.v
AlikeSet(p, q, lax) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : \E j \in 1..Len(q) : p[i][1] = q[j][1] /\ Alike(p[i][2], q[j][2], lax)

IsNull(v) == v.t = "n"
Map(f(_), s) == TLCEval([i \in 1..Len(s) |-> f(s[i])])

(* ---- rules that relate several fields of an object ---- *)
Field(c, vals, n) == vals[FieldIx[c][n]]
Rule(c, vals) ==
  LET g(n) == Field(c, vals, n)
      has(n) == ~IsNull(g(n))
      is(n, s) == g(n).t = "s" /\ g(n).v = s
      sub(n, k) == Field(g(n).c, g(n).v, k)
  IN CASE c = "Channel" ->
            has("parameters") => (has("address") /\ HasExpression(g("address").v))
       [] c = "MessageExample" -> has("headers") \/ has("payload")
       [] c = "OAuthFlows" ->
            /\ has("implicit") => ~IsNull(sub("implicit", "authorizationUrl"))
            /\ has("password") => ~IsNull(sub("password", "tokenUrl"))
            /\ has("clientCredentials") => ~IsNull(sub("clientCredentials", "tokenUrl"))
            /\ has("authorizationCode") =>
                 ~IsNull(sub("authorizationCode", "authorizationUrl")) /\ ~IsNull(sub("authorizationCode", "tokenUrl"))
       [] c = "SecurityScheme" ->
            /\ is("type", "apiKey") => is("in", "user") \/ is("in", "password")
            /\ is("type", "httpApiKey") => has("name") /\ (is("in", "query") \/ is("in", "header") \/ is("in", "cookie"))
            /\ is("type", "http") => has("scheme")
            /\ is("type", "oauth2") => has("flows")
            /\ is("type", "openIdConnect") => has("openIdConnectUrl")
            /\ has("bearerFormat") => is("type", "http") /\ is("scheme", "bearer")
            /\ has("scopes") => is("type", "oauth2") \/ is("type", "openIdConnect")
       [] c = "AMQPChannelBindings" ->
            IF is("is", "routingKey") THEN has("exchange") /\ ~has("queue") ELSE has("queue") /\ ~has("exchange")
       [] c = "IBMMQChannelBindings" ->
            ~(has("queue") /\ has("topic")) /\ (is("destinationType", "queue") => has("queue"))
       [] c = "IBMMQMessageBindings" -> has("headers") => is("type", "binary")
       [] c = "KafkaServerBindings" -> has("schemaRegistryVendor") => has("schemaRegistryUrl")
       [] c = "SolaceDestination" ->
            IF is("destinationType", "queue") THEN has("queue") /\ ~has("topic") ELSE has("topic") /\ ~has("queue")
       [] OTHER -> TRUE

(* ---- reading data ---- *)
Fail == [ok |-> FALSE, v |-> N]
Ok(v) == [ok |-> TRUE, v |-> v]
Accept(b, v) == IF b THEN Ok(v) ELSE Fail
IsInt(v) == v.t \in {"i", "j"}     \* j: an integer beyond 32 bits, by its text
AtLeast(v, lo) == IF v.t = "i" THEN v.v >= lo ELSE Ch(v.v, 1) # "-"
AtMost(v, hi) == IF v.t = "i" THEN v.v <= hi ELSE Ch(v.v, 1) = "-"
AsSeq(s) == IF Len(s) = 0 THEN <<>> ELSE s
OkSeq(r) == \A i \in DOMAIN r : r[i].ok

(* data that is nothing but a reference *)
RefData(v) == v.t = "o" /\ Len(v.v) = 1 /\ v.v[1][1] \in {"$ref", "ref"} /\ v.v[1][2].t = "s"

Unknown == "unknown"
NewObject(c, vals, extra) == [t |-> "m", c |-> c, v |-> vals, x |-> extra]

(* may an object of class c carry an additional field of this name? *)
ExtraOk(c, name) == CASE Meta[c].x = "ext" -> IsExtension(name)
                      [] Meta[c].x = "any" -> TRUE
                      [] OTHER -> FALSE

RECURSIVE Parse(_, _), ParseObject(_, _), ParseUnion(_, _, _)

(* the object of class c with these field contents (a sequence of           *)
(* <<index, data>>, absent fields take their defaults) and extras           *)
FromFields(c, given, extra) ==
  LET f == Meta[c].f
      at == [i \in 1..Len(f) |-> {k \in DOMAIN given : given[k][1] = i}]
      r == TLCEval([i \in 1..Len(f) |->
              IF at[i] # {} THEN Parse(f[i].ty, given[CHOOSE k \in at[i] : TRUE][2])
              ELSE [ok |-> ~f[i].req, v |-> f[i].def]])
      vals == TLCEval([i \in 1..Len(f) |-> r[i].v])
  IN IF ~OkSeq(r) THEN Fail
     ELSE IF \E k \in DOMAIN extra : ~ExtraOk(c, extra[k][1]) THEN Fail
     ELSE Accept(Rule(c, vals), NewObject(c, vals, extra))

ParsePairs(ty, pairs) ==
  LET r == Map(LAMBDA p : Parse(ty, p[2]), pairs)
  IN [ok |-> OkSeq(r), v |-> TLCEval([i \in 1..Len(pairs) |-> <<pairs[i][1], r[i].v>>])]

ParseObject(c, v) ==
  IF Meta[c].x = "map" THEN
     IF v.t = "o" \/ (v.t = "M" /\ v.c = c)
     THEN LET r == ParsePairs(Meta[c].of, v.v)
          IN Accept(r.ok /\ \A i \in DOMAIN v.v : IsKey(v.v[i][1]), [t |-> "M", c |-> c, v |-> r.v])
     ELSE Fail
  ELSE IF v.t = "m" /\ v.c = c THEN
     FromFields(c, TLCEval([i \in 1..Len(v.v) |-> <<i, v.v[i]>>]), v.x)
  ELSE IF v.t = "o" THEN
     LET known(p) == IsField(c, p[1])
         unknown(p) == ~IsField(c, p[1])
     IN FromFields(c, Map(LAMBDA p : <<FieldIx[c][p[1]], p[2]>>, SelectSeq(v.v, known)), SelectSeq(v.v, unknown))
  ELSE Fail

(* alternatives: the first that accepts, except that a mere "$ref" is always *)
(* a reference and nothing else is, and a multi-format schema needs "schema" *)
HasAlt(alts, c) == \E i \in DOMAIN alts : alts[i].k = "obj" /\ alts[i].c = c
ParseUnion(alts, v, i) ==
  IF i > Len(alts) THEN Fail
  ELSE LET r == Parse(alts[i], v) IN IF r.ok THEN r ELSE ParseUnion(alts, v, i + 1)

Parse(ty, v) ==
  CASE ty.k = "any" -> Ok(v)
    [] ty.k = "null" -> Accept(IsNull(v), v)
    [] ty.k = "str" -> Accept(v.t = "s", v)
    [] ty.k = "strmax" -> Accept(v.t = "s" /\ Len(v.v) <= ty.n, v)
    [] ty.k = "strbytes" -> Accept(v.t = "s" /\ FitsBytes(v.v, ty.n), v)
    [] ty.k = "int" -> Accept(IsInt(v), v)
    [] ty.k = "intmin" -> Accept(IsInt(v) /\ AtLeast(v, ty.lo), v)
    [] ty.k = "intrange" -> Accept(IsInt(v) /\ AtLeast(v, ty.lo) /\ AtMost(v, ty.hi), v)
    [] ty.k = "bool" -> Accept(v.t = "b", v)
    [] ty.k = "url" -> Accept(v.t = "s" /\ IsUrl(v.v), v)
    [] ty.k = "httpurl" -> Accept(v.t = "s" /\ IsHttpUrl(v.v), v)
    [] ty.k = "email" -> Accept(v.t = "s" /\ IsEmail(v.v), v)
    [] ty.k = "semver" -> Accept(v.t = "s" /\ IsVersion3(v.v), v)
    [] ty.k = "rtexpr" -> Accept(v.t = "s" /\ IsRuntimeExpression(v.v), v)
    [] ty.k = "lit" -> Accept(\E i \in DOMAIN ty.vs : Same(ty.vs[i], v), v)
    [] ty.k = "list" ->
         IF v.t # "a" THEN Fail
         ELSE LET r == Map(LAMBDA e : Parse(ty.of, e), v.v)
              IN Accept(OkSeq(r), A(Map(LAMBDA e : e.v, r)))
    [] ty.k = "dict" ->
         IF v.t # "o" THEN Fail
         ELSE LET r == ParsePairs(ty.of, v.v) IN Accept(r.ok, O(r.v))
    [] ty.k = "obj" -> ParseObject(ty.c, v)
    [] ty.k = "union" ->
         IF RefData(v) /\ HasAlt(ty.alts, "Reference") THEN ParseObject("Reference", v)
         ELSE ParseUnion(ty.alts, v, 1)

ParseClass(c, v) == ParseObject(c, v)

(* ---- writing ---- *)
(* u: an object whose fields may be written in any order *)
RECURSIVE Dump(_)
DumpPairs(pairs) == Map(LAMBDA p : <<p[1], Dump(p[2])>>, pairs)
Dump(v) ==
  CASE v.t = "m" ->
         LET f == Meta[v.c].f
             written == SelectSeq([i \in 1..Len(f) |-> i],
                          LAMBDA i : ~IsNull(v.v[i]) \/ f[i].keep \/ f[i].req)
         IN [t |-> "u", v |-> Map(LAMBDA i : <<f[i].w, Dump(v.v[i])>>, written) \o DumpPairs(v.x)]
    [] v.t = "M" -> O(DumpPairs(v.v))
    [] v.t = "o" -> O(DumpPairs(v.v))
    [] v.t = "a" -> A(Map(Dump, v.v))
    [] OTHER -> v

(* Fields that have a default but also admit null: an explicit null is not   *)
(* written, so it comes back as the default (known finding D02-null).        *)
(* Refill(v) is v with those nulls replaced.                                 *)
RECURSIVE Refill(_)
Refill(v) ==
  CASE v.t = "m" -> [v EXCEPT !.v = TLCEval([i \in 1..Len(v.v) |-> IF IsNull(v.v[i]) THEN Meta[v.c].f[i].def ELSE Refill(v.v[i])])]
    [] v.t \in {"M", "o"} -> [v EXCEPT !.v = Map(LAMBDA p : <<p[1], Refill(p[2])>>, v.v)]
    [] v.t = "a" -> A(Map(Refill, v.v))
    [] OTHER -> v
Lossy(v) == ~Same(Refill(v), v)

(* "u" read back as data *)
RECURSIVE Data(_)
Data(v) == CASE v.t \in {"u", "o"} -> O(Map(LAMBDA p : <<p[1], Data(p[2])>>, v.v))
             [] v.t = "a" -> A(Map(Data, v.v))
             [] OTHER -> v
=============================================================================
