------------------------------ MODULE CaseData -------------------------------
(* Enumeration of inputs from the object model table: minimal objects, every *)
(* place where a reference may stand, every addressable part of a document,  *)
(* and probe values for every field.  TLC checks that the enumeration is     *)
(* faithful (the invariants) and writes it out for replay on the real code.  *)
EXTENDS Objects, Json, IOUtils

ConcatMap(f(_), s) == FlattenSeq(Map(f, s))
Ixs(s) == [i \in 1..Len(s) |-> i]
NonNull(alts) == SelectSeq(alts, LAMBDA a : a.k # "null")
URL == "https://example.com/"

(* ---- smallest data ---- *)
RECURSIVE MinOf(_), Object(_, _)
(* what else an object with these fields needs to satisfy its rule *)
Needs(c, given) ==
  LET g(w) == \E i \in DOMAIN given : given[i][1] = w
      one(w, d) == IF g(w) THEN <<>> ELSE <<<<w, d>>>>
      is(w, x) == \E i \in DOMAIN given : given[i][1] = w /\ given[i][2].t = "s" /\ given[i][2].v = x
  IN CASE c = "Channel" -> IF g("parameters") THEN one("address", S("a/{x}")) ELSE <<>>
       [] c = "OAuthFlow" -> one("authorizationUrl", S(URL)) \o one("tokenUrl", S(URL))
       [] c = "MessageExample" -> IF g("headers") THEN <<>> ELSE one("payload", S("p"))
       [] c = "SecurityScheme" ->
            IF is("type", "apiKey") THEN one("in", S("user"))
            ELSE IF is("type", "httpApiKey") THEN one("in", S("query")) \o one("name", S("n"))
            ELSE IF is("type", "http") THEN one("scheme", S("basic"))
            ELSE IF is("type", "oauth2") THEN one("flows", O(<<>>))
            ELSE IF is("type", "openIdConnect") THEN one("openIdConnectUrl", S(URL))
            ELSE IF g("bearerFormat") THEN one("type", S("http")) \o one("scheme", S("bearer"))
            ELSE IF g("scopes") \/ g("flows") THEN one("type", S("oauth2")) \o one("flows", O(<<>>))
            ELSE one("type", S("plain"))
       [] c = "AMQPChannelBindings" ->
            IF g("exchange") \/ is("is", "routingKey") THEN one("exchange", Object("AMQPExchange", <<>>)) \o one("is", S("routingKey")) ELSE one("is", S("queue")) \o one("queue", Object("AMQPQueue", <<>>))
       [] c = "IBMMQMessageBindings" -> IF g("headers") THEN one("type", S("binary")) ELSE <<>>
       [] c = "KafkaServerBindings" -> IF g("schemaRegistryVendor") THEN one("schemaRegistryUrl", S("u")) ELSE <<>>
       [] c = "SolaceDestination" ->
            IF g("topic") \/ is("destinationType", "topic") THEN one("topic", Object("SolaceTopic", <<>>)) \o one("destinationType", S("topic"))
            ELSE one("destinationType", S("queue")) \o one("queue", Object("SolaceQueue", <<>>))
       [] OTHER -> <<>>
Object(c, given) ==
  LET g1 == given \o Needs(c, given)
      f == Meta[c].f
      missing == SelectSeq(Ixs(f), LAMBDA i : f[i].req /\ ~\E k \in DOMAIN g1 : g1[k][1] = f[i].w)
  IN O(Map(LAMBDA i : <<f[i].w, MinOf(f[i].ty)>>, missing) \o g1)
MinOf(ty) ==
  CASE ty.k = "any" -> S("v")
    [] ty.k = "null" -> N
    [] ty.k = "str" -> S("text")
    [] ty.k \in {"strmax", "strbytes"} -> S("s")
    [] ty.k = "int" -> I(1)
    [] ty.k = "intmin" -> I(ty.lo)
    [] ty.k = "intrange" -> I(ty.lo)
    [] ty.k = "bool" -> B(TRUE)
    [] ty.k \in {"url", "httpurl"} -> S(URL)
    [] ty.k = "email" -> S("a@b.co")
    [] ty.k = "semver" -> S("3.0.0")
    [] ty.k = "rtexpr" -> S("$message.header#/id")
    [] ty.k = "lit" -> ty.vs[1]
    [] ty.k = "list" -> A(<<>>)
    [] ty.k = "dict" -> O(<<>>)
    [] ty.k = "union" -> MinOf(ty.alts[1])
    [] ty.k = "obj" -> IF ty.c = "Reference" THEN O(<<<<"$ref", S(URL)>>>>) ELSE Object(ty.c, <<>>)

(* ---- every place where a reference may stand ---- *)
(* [path, kinds, d]: d is data whose only reference is the one at path      *)
TheRef == O(<<<<"$ref", S("@")>>>>)
Under(step, wrap(_), s) == Map(LAMBDA r : [path |-> <<step>> \o r.path, kinds |-> r.kinds, d |-> wrap(r.d)], s)
RECURSIVE RefPlaces(_, _, _)
RefPlaces(ty, kinds, seen) ==
  CASE ty.k = "union" -> ConcatMap(LAMBDA a : RefPlaces(a, kinds, seen), ty.alts)
    [] ty.k = "list" -> Under("[]", LAMBDA d : A(<<d>>), RefPlaces(ty.of, kinds, seen))
    [] ty.k = "dict" -> Under("*", LAMBDA d : O(<<<<"s", d>>>>), RefPlaces(ty.of, kinds, seen))
    [] ty.k = "obj" ->
         IF ty.c = "Reference" THEN <<[path |-> <<>>, kinds |-> kinds, d |-> TheRef]>>
         ELSE IF ty.c \in seen \/ ty.c \notin HoldsRefs THEN <<>>
         ELSE IF Meta[ty.c].x = "map" THEN
            Under("*", LAMBDA d : O(<<<<"s", d>>>>), RefPlaces(Meta[ty.c].of, ItemKinds[ty.c], seen \cup {ty.c}))
         ELSE ConcatMap(LAMBDA i :
                 IF i \notin RefFields[ty.c] THEN <<>>
                 ELSE Under(Meta[ty.c].f[i].w, LAMBDA d : Object(ty.c, <<<<Meta[ty.c].f[i].w, d>>>>),
                            RefPlaces(Meta[ty.c].f[i].ty, FieldKinds[ty.c][i], seen \cup {ty.c})),
                 Ixs(Meta[ty.c].f))
    [] OTHER -> <<>>
AllRefPlaces == TLCEval(RefPlaces(Obj("AsyncAPI3"), {}, {}))

(* ---- every addressable part ---- *)
(* [path, kinds, d]: kinds = {the class of the part, or "other"} *)
Here(k, d) == <<[path |-> <<>>, kinds |-> {k}, d |-> d]>>
RECURSIVE PartPlaces(_, _)
PartPlaces(ty, seen) ==
  CASE ty.k = "union" -> ConcatMap(LAMBDA a : PartPlaces(a, seen), NonNull(ty.alts))
    [] ty.k = "list" -> Here("other", A(<<>>))
    [] ty.k = "dict" /\ ty.of.k = "any" -> <<>>
    [] ty.k = "dict" -> Here("other", O(<<>>)) \o Under("t", LAMBDA d : O(<<<<"t", d>>>>), IF ty.of.k = "any" THEN <<>> ELSE PartPlaces(ty.of, seen))
    [] ty.k = "any" -> <<>>
    [] ty.k = "obj" ->
         IF ty.c = "Reference" \/ ty.c \in seen THEN <<>>
         ELSE Here(ty.c, Object(ty.c, <<>>)) \o
         (IF Meta[ty.c].x = "map" THEN Under("t", LAMBDA d : O(<<<<"t", d>>>>), PartPlaces(Meta[ty.c].of, seen \cup {ty.c}))
          ELSE ConcatMap(LAMBDA i : Under(Meta[ty.c].f[i].w, LAMBDA d : Object(ty.c, <<<<Meta[ty.c].f[i].w, d>>>>),
                                           PartPlaces(Meta[ty.c].f[i].ty, seen \cup {ty.c})), Ixs(Meta[ty.c].f)))
    [] OTHER -> Here("other", MinOf(ty))
AllPartPlaces == TLCEval(PartPlaces(Obj("AsyncAPI3"), {}))

(* ---- every list, dictionary and map whose items are of a kind that can be referred to ---- *)
(* [path, of, d]: of = the kinds of its items; d holds one item *)
Thing(ty) == IF ty.k = "union" THEN MinOf(Head(SelectSeq(ty.alts, LAMBDA a : ~(a.k = "obj" /\ a.c = "Reference")))) ELSE MinOf(ty)
With(step, wrap(_), s) == Map(LAMBDA r : [path |-> <<step>> \o r.path, of |-> r.of, d |-> wrap(r.d)], s)
Holding(kinds, d) == IF kinds = {} THEN <<>> ELSE <<[path |-> <<>>, of |-> kinds, d |-> d]>>
RECURSIVE HolderPlaces(_, _, _)
HolderPlaces(ty, kinds, seen) ==
  CASE ty.k = "union" -> ConcatMap(LAMBDA a : HolderPlaces(a, kinds, seen), NonNull(ty.alts))
    [] ty.k = "list" -> Holding(kinds, A(<<Thing(ty.of)>>))
    [] ty.k = "dict" /\ ty.of.k # "any" -> Holding(kinds, O(<<<<"t", Thing(ty.of)>>>>)) \o With("t", LAMBDA d : O(<<<<"t", d>>>>), HolderPlaces(ty.of, {}, seen))
    [] ty.k = "obj" ->
         IF ty.c = "Reference" \/ ty.c \in seen THEN <<>>
         ELSE IF Meta[ty.c].x = "map" THEN
            Holding(ItemKinds[ty.c], O(<<<<"t", Thing(Meta[ty.c].of)>>>>)) \o
            With("t", LAMBDA d : O(<<<<"t", d>>>>), HolderPlaces(Meta[ty.c].of, {}, seen \cup {ty.c}))
         ELSE ConcatMap(LAMBDA i : With(Meta[ty.c].f[i].w, LAMBDA d : Object(ty.c, <<<<Meta[ty.c].f[i].w, d>>>>),
                                         HolderPlaces(Meta[ty.c].f[i].ty, FieldKinds[ty.c][i], seen \cup {ty.c})), Ixs(Meta[ty.c].f))
    [] OTHER -> <<>>
AllHolderPlaces == TLCEval(HolderPlaces(Obj("AsyncAPI3"), {}, {}))
RECURSIVE JoinPath(_)
JoinPath(p) == IF Len(p) = 0 THEN "" ELSE "/" \o p[1] \o JoinPath(Tail(p))
AllKinds == UNION {AllRefPlaces[i].kinds : i \in DOMAIN AllRefPlaces}

(* ---- probe values ---- *)
Junk == <<N, I(7), S("zzz"), F("1.5"), A(<<>>), A(<<S("zzz")>>), A(<<I(3)>>), A(<<N>>), O(<<>>), O(<<<<"zzz", I(1)>>>>), B(TRUE), B(FALSE), I(0), S("")>>
RECURSIVE Scalars(_)
Scalars(ty) == CASE ty.k = "union" -> UNION {Scalars(ty.alts[i]) : i \in DOMAIN ty.alts}
                 [] ty.k \in {"int", "intmin", "intrange"} -> {"int"}
                 [] ty.k = "bool" -> {"bool"}
                 [] ty.k = "lit" -> {IF ty.vs[i].t = "i" THEN "int" ELSE "str" : i \in DOMAIN ty.vs}
                 [] OTHER -> {"str"}
(* pairs about which nothing is said: readings of one scalar kind as another *)
Spoken(ty, v) == /\ ("int" \in Scalars(ty) => v.t # "b")
                 /\ ("bool" \in Scalars(ty) => ~(v.t = "i" /\ v.v \in {0, 1}))
Rep(ch, n) == LET RECURSIVE rep(_)
                  rep(k) == IF k = 0 THEN "" ELSE ch \o rep(k - 1) IN rep(n)
Big == [t |-> "j", v |-> "1000000000000"]
NegBig == [t |-> "j", v |-> "-1000000000000"]
(* every literal of the object model, tried in every place that takes literals *)
RECURSIVE LitsOf(_)
LitsOf(ty) == CASE ty.k = "lit" -> {v.v : v \in {x \in Range(ty.vs) : x.t = "s"}}
                [] ty.k = "union" -> UNION {LitsOf(ty.alts[i]) : i \in DOMAIN ty.alts}
                [] ty.k \in {"list", "dict"} -> LitsOf(ty.of)
                [] OTHER -> {}
AllLits == TLCEval(Map(S, SetToSeq(UNION {UNION {LitsOf(Meta[c].f[i].ty) : i \in DOMAIN Meta[c].f} : c \in Classes})))
(* acceptable values in one layer too many or too few *)
Boxed(m) == <<A(<<m>>), O(<<<<"a", m>>>>)>>
RECURSIVE Misplaced(_)
Misplaced(ty) ==
  CASE ty.k = "union" -> ConcatMap(Misplaced, ty.alts)
    [] ty.k = "list" -> LET m == MinOf(ty.of) IN <<m, A(<<A(<<m>>)>>), O(<<<<"a", m>>>>)>>
    [] ty.k = "dict" -> LET m == MinOf(ty.of) IN <<m, A(<<m>>)>>
    [] ty.k \in {"any", "null"} -> <<>>
    [] OTHER -> Boxed(MinOf(ty))
Strings == <<S(""), S("text"), S("null"), S("a\nb"), S("$ref"), S("0"), S(" x ")>>
RECURSIVE Specific(_)
Specific(ty) ==
  CASE ty.k = "any" -> <<O(<<<<"a", N>>, <<"$ref", S("#/x")>>, <<"b", A(<<B(FALSE), I(0), O(<<>>)>>)>>>>), A(<<N, S(""), Big>>), F("0.1")>>
    [] ty.k = "str" -> Strings
    [] ty.k \in {"strmax", "strbytes"} -> Strings \o <<S(Rep("s", ty.n - 1)), S(Rep("s", ty.n)), S(Rep("s", ty.n + 1)), S(Rep("s", ty.n + 40))>>
    [] ty.k = "int" -> <<I(-1), I(1), Big, NegBig>>
    [] ty.k = "intmin" -> <<I(ty.lo - 1), I(ty.lo), I(ty.lo + 1), I(-7), Big, NegBig>>
    [] ty.k = "intrange" -> <<I(ty.lo - 1), I(ty.lo), I(ty.lo + 1), I(ty.hi - 1), I(ty.hi), I(ty.hi + 1), Big, NegBig>>
    [] ty.k = "bool" -> <<>>
    [] ty.k = "url" -> <<S(URL), S("urn:com:example:server"), S("example.com"), S("http://"), S("mailto:a@example.com")>>
    [] ty.k = "httpurl" -> <<S(URL), S("http://example.com:8080/p"), S("ftp://example.com/x"), S("urn:com:example:server"), S("example.com"), S("mailto:a@example.com")>>
    [] ty.k = "email" -> <<S("a@b.co"), S("first.last+x@sub.example.org"), S("a..b@c.de"), S("a@b"), S("a@b.co\n"), S("@b.co")>>
    [] ty.k = "semver" -> <<S("3.0.0"), S("3.1.2-rc.1"), S("2.6.0"), S("3.0"), S("3.0.0\n"), S("4.0.0")>>
    [] ty.k = "rtexpr" -> <<S("$message.header#/a"), S("$message.payload#/a/b"), S("$message"), S(" $message.x"), S("$response.header")>>
    [] ty.k = "lit" -> ty.vs \o (IF ty.vs[1].t = "i" THEN <<I(-1), I(3), I(99)>> ELSE Map(LAMBDA v : S(v.v \o "_"), ty.vs) \o AllLits \o <<S(ty.vs[1].v \o " "), S(" " \o ty.vs[1].v)>>)
    [] ty.k = "list" -> LET m == MinOf(ty.of) IN
         <<A(<<m>>), A(<<m, m>>)>> \o Map(LAMBDA v : A(<<m, v>>), SelectSeq(Specific(ty.of) \o Misplaced(ty.of) \o Junk, LAMBDA v : Spoken(ty.of, v)))
    [] ty.k = "dict" -> LET m == MinOf(ty.of) IN
         <<O(<<<<"a", m>>>>), O(<<<<"z", m>>, <<"a b/c", m>>, <<"", m>>>>)>> \o
         (IF ty.of.k = "any" THEN <<>> ELSE Map(LAMBDA v : O(<<<<"a", m>>, <<"b", v>>>>), SelectSeq(Specific(ty.of) \o Misplaced(ty.of) \o Junk, LAMBDA v : Spoken(ty.of, v))))
    [] ty.k = "union" -> ConcatMap(Specific, ty.alts)
    [] ty.k = "null" -> <<>>
    [] ty.k = "obj" ->
         IF ty.c = "Reference" THEN <<O(<<<<"$ref", S("#/a")>>>>), O(<<<<"$ref", S("#/a")>>, <<"x-a", I(1)>>>>), O(<<<<"$ref", I(1)>>>>), O(<<<<"$ref", N>>>>)>>
         ELSE LET m == Object(ty.c, <<>>) IN
           <<m>> \o (IF Meta[ty.c].x = "map" THEN <<O(<<<<"a", MinOf(Meta[ty.c].of)>>>>), O(<<<<"a b", MinOf(Meta[ty.c].of)>>>>)>>
                     ELSE <<O(Append(m.v, <<"x-a", I(1)>>)), O(Append(m.v, <<"zzz", I(1)>>))>>
                          \o (IF m.v = <<>> THEN <<>> ELSE <<O(Tail(m.v))>>))
Silent(ty, v) == \* excluded: nothing is promised about these inputs
  \/ ~Spoken(ty, v)
  \/ (HasAlt(Alts(ty), "MultiFormatSchema") /\ v.t = "o" /\ (\E i \in DOMAIN v.v : v.v[i][1] \in {"$ref", "ref"}) /\ ~RefData(v))
Probes(ty) == SelectSeq(Specific(ty) \o Misplaced(ty) \o Junk, LAMBDA v : ~Silent(ty, v))
ProbeCases(c) == IF Meta[c].x = "map" THEN Map(LAMBDA v : O(<<<<"k", v>>>>), Probes(Meta[c].of))
  ELSE ConcatMap(LAMBDA i : Map(LAMBDA v : Object(c, <<<<Meta[c].f[i].w, v>>>>), Probes(Meta[c].f[i].ty)), Ixs(Meta[c].f))
(* every field left out in turn, and nothing but one field *)
OmitCases(c) == LET m == Object(c, <<>>) IN
  <<m, O(<<>>)>> \o Map(LAMBDA i : O(RemoveAt(m.v, i)), Ixs(m.v))
(* every field present with a simple value *)
FullCase(c) == LET f == Meta[c].f IN
  O(Map(LAMBDA i : <<f[i].w, MinOf(f[i].ty)>>, Ixs(f)))

=============================================================================
