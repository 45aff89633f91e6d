----------------------------- MODULE BuildMachine -----------------------------
(* Histories of several documents made with the builder: built with and      *)
(* without arguments and processors, changed in place, assigned to, given    *)
(* further processors.  Every transition is written out and replayed.        *)
EXTENDS Processors, Json, IOUtils

CONSTANTS Steps, Docs
Default == <<"default">>
Ref(s) == O(<<<<"$ref", S(s)>>>>)
Server == O(<<<<"host", S("h")>>, <<"protocol", S("p")>>>>)
Dangling == O(<<<<"z", O(<<<<"servers", A(<<Ref("#/servers/nowhere")>>)>>>>)>>>>)
Fitting == O(<<<<"z", O(<<<<"servers", A(<<Ref("#/servers/a")>>)>>>>)>>>>)
Way(args, kw, convs, vals) == [args |-> args, kw |-> kw, convs |-> convs, vals |-> vals]
Variants == << Way(<<>>, <<>>, Default, Default), Way(<<<<"title", S("T")>>>>, <<>>, Default, Default),
               Way(<<>>, <<<<"servers", O(<<<<"a", Server>>>>)>>, <<"channels", Fitting>>>>, Default, Default),
               Way(<<>>, <<<<"channels", Dangling>>>>, Default, Default), Way(<<>>, <<<<"channels", Dangling>>>>, Default, <<>>),
               Way(<<>>, <<>>, <<"Title-x">>, <<"Log-a">>), Way(<<>>, <<<<"components", O(<<>>)>>>>, Default, <<"Log-a", "Unified">>) >>
(* items put into collections in place *)
Spot(path, key, arg) == [path |-> path, key |-> key, arg |-> arg]
Spots == << Spot(<<"servers">>, "a", Server), Spot(<<"channels">>, "a", O(<<>>)), Spot(<<"channels">>, "z", Dangling.v[1][2]), Spot(<<"operations">>, "a", Ref("#/components/operations/a")),
             Spot(<<"components", "messages">>, "a", O(<<>>)), Spot(<<"components", "schemas">>, "a", O(<<<<"type", S("object")>>>>)), Spot(<<"components", "operations">>, "a", Ref("https://example.com/")) >>
Sets == << <<"id", S("urn:x:y")>>, <<"channels", Dangling>>, <<"channels", Fitting>>, <<"components", N>>, <<"servers", O(<<>>)>> >>
Added == << <<"vals", "Fail-k">>, <<"convs", "Title-k">>, <<"vals", "Log-k">> >>

VARIABLES ds, hist, r, clean
vars == <<ds, hist, r, clean>>
Ids == DOMAIN ds
Init == ds = <<>> /\ hist = <<>> /\ r = "ok" /\ clean = TRUE
Doc(v, c, l) == [val |-> v, convs |-> c, vals |-> l]
Edits(log) == \E i \in DOMAIN log : What(log[i].p) \in {"Title", "Chan", "Drop"}
(* what one operation does to one document *)
EffectOf(d, o) ==
  CASE o[1] = "put" -> LET p == Spots[o[3]]
                           x == OnPart(d.val, p.path, LAMBDA m : PutItem(m, p.key, p.arg)) IN [r |-> x.r, d |-> [d EXCEPT !.val = x.val], clean |-> TRUE]
    [] o[1] = "del" -> LET p == Spots[o[3]]
                           x == OnPart(d.val, p.path, LAMBDA m : DelItem(m, p.key)) IN [r |-> x.r, d |-> [d EXCEPT !.val = x.val], clean |-> TRUE]
    [] o[1] = "attach" -> [r |-> "ok", clean |-> TRUE, d |-> IF Added[o[3]][1] = "vals" THEN [d EXCEPT !.vals = Append(@, Added[o[3]][2])] ELSE [d EXCEPT !.convs = Append(@, Added[o[3]][2])]]
    [] o[1] = "set" -> LET x == PAssign(d.val, Sets[o[3]][1], Sets[o[3]][2], d.convs, d.vals)
                       IN [r |-> x.r, d |-> IF x.r = "ok" THEN [d EXCEPT !.val = x.val] ELSE d, clean |-> x.r = "ok" \/ ~Edits(x.log)]
    [] o[1] = "title" -> [r |-> "ok", clean |-> TRUE, d |-> [d EXCEPT !.val = Replace(@, TitlePath, S("changed"))]]
(* a place that exists and, for "del", holds the key *)
Usable(d, o) == o[1] \in {"put", "del"} =>
   LET p == Spots[o[3]] IN (p.path[1] = "components" => PartAt(d.val, <<"components">>).t = "m") /\ PartAt(d.val, p.path).t = "M"
        /\ (o[1] = "del" => Index(PartAt(d.val, p.path).v, p.key) # 0)
BuiltOf == TLCEval([k \in DOMAIN Variants |-> Build(Variants[k].args, Variants[k].kw, Variants[k].convs, Variants[k].vals)])
Built(k) == BuiltOf[k]
New == /\ Len(ds) < Docs
       /\ \E k \in DOMAIN Variants : LET x == TLCEval(Built(k)) IN
            /\ ds' = (IF x.r = "ok" THEN Append(ds, Doc(x.val, x.convs, x.vals)) ELSE ds)
            /\ r' = x.r /\ clean' = (x.r = "ok") /\ hist' = Append(hist, <<"build", k>>)
Change == \E i \in Ids : \E o \in {<<"put", i, k>> : k \in DOMAIN Spots} \cup {<<"del", i, k>> : k \in DOMAIN Spots} \cup {<<"attach", i, k>> : k \in DOMAIN Added}
                                  \cup {<<"set", i, k>> : k \in DOMAIN Sets} \cup {<<"title", i, 0>>} :
            /\ Usable(ds[i], o)
            /\ LET x == TLCEval(EffectOf(ds[i], o)) IN ds' = [ds EXCEPT ![i] = x.d] /\ r' = x.r /\ clean' = x.clean
            /\ hist' = Append(hist, o)
Next == clean /\ Len(hist) < Steps /\ (New \/ Change)
View == <<ds, r, clean, Len(hist)>>

(* ---- laws ---- *)
(* a document is what its own operations made of it, whatever happened to the others *)
Builds == SelectSeq(hist, LAMBDA o : o[1] = "build" /\ Built(o[2]).r = "ok")
RECURSIVE Redone(_, _)
Redone(d, ops) == IF Len(ops) = 0 THEN d ELSE Redone(EffectOf(d, ops[1]).d, Tail(ops))
Independent == \A i \in Ids :
   LET b == Built(Builds[i][2])
       own == SelectSeq(hist, LAMBDA o : o[1] # "build" /\ o[2] = i)
       d == Redone(Doc(b.val, b.convs, b.vals), own)
   IN Same(d.val, ds[i].val) /\ d.convs = ds[i].convs /\ d.vals = ds[i].vals
(* reference checking is active in every document that was not given other validators *)
RefsChecked == \A i \in Ids : (Variants[Builds[i][2]].vals = Default /\ \A k \in DOMAIN ds[i].convs : What(ds[i].convs[k]) = "Title") =>
   LET had == {k \in DOMAIN hist : hist[k] = <<"attach", i, 1>>} IN
   /\ ds[i].vals[1] = "Unified"
   /\ PAssign(ds[i].val, "channels", Dangling, ds[i].convs, ds[i].vals).r = "rej"
(* a document built without arguments has all its collections, empty *)
AllEmpty == \A i \in Ids : (Builds[i] = <<"build", 1>> /\ Len(hist) = 1) =>
   /\ \A n \in {"servers", "channels", "operations"} : PartAt(ds[i].val, <<n>>).v = <<>>
   /\ \A k \in DOMAIN ComponentNames : PartAt(ds[i].val, <<"components", ComponentNames[k]>>).v = <<>>
Emit == IF Len(hist') = Steps \/ ~clean' THEN PrintT("CASE " \o ToJson(hist')) ELSE TRUE
Stop == r = "never"
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, [variants |-> Variants, places |-> Spots, sets |-> Sets, procs |-> Added, dangling |-> Dangling])
=============================================================================
