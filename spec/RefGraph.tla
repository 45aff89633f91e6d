------------------------------ MODULE RefGraph ------------------------------
(* Following a reference as a state machine, one hop per step, over every    *)
(* graph of references among a few named components.                         *)
EXTENDS CaseData

CONSTANTS Colls,    \* the collection of every node: one of components, or ("/") of the document
          LikeNames     \* are names shared between collections, and alike within one
C_mes_mes_sch == <<"messages", "messages", "schemas">>
C_mes_cha_mes == <<"messages", "channels", "messages">>
C_mes_mes_mes_mes == <<"messages", "messages", "messages", "messages">>
C_mes_sch_mes_cha == <<"messages", "schemas", "messages", "channels">>
C_tag_tag_ext_tag == <<"tags", "tags", "externalDocs", "tags">>
C_ser_par_ser_par == <<"serverVariables", "parameters", "serverVariables", "parameters">>
C_root_cha == <<"/channels", "channels", "channels", "/channels">>
C_root_ser == <<"/servers", "servers", "/servers">>
C_root_ope == <<"operations", "/operations", "operations">>

Nodes == DOMAIN Colls
Before(i) == Cardinality({j \in 1..(i - 1) : Colls[j] = Colls[i]})
NodeName(i) == IF LikeNames THEN <<"n", "N", "n_", "nn">>[Before(i) + 1] ELSE <<"n1", "n2", "n3", "n4">>[i]
AtRoot(coll) == HasPrefix(coll, "/")
CollName(coll) == IF AtRoot(coll) THEN Drop(coll, 1) ELSE coll
CollPointer(coll) == (IF AtRoot(coll) THEN "#" ELSE "#/components/") \o coll \o "/"
Pointer(i) == CollPointer(Colls[i]) \o NodeName(i)
(* contents: 0 an object, i > 0 a reference to node i, -1 a URL, -2 nothing there *)
Contents == {-2, -1, 0} \cup Nodes
Graphs == [Nodes -> Contents]

CollType(coll) == LET c == IF AtRoot(coll) THEN "AsyncAPI3" ELSE "Components" IN Meta[c].f[FieldIx[c][CollName(coll)]].ty.alts[1].c
NodeKinds == TLCEval([i \in Nodes |-> ItemKinds[CollType(Colls[i])]])
KindsIn(i) == NodeKinds[i]
Content(g, i) ==
  CASE g[i] = 0 -> Object(CHOOSE k \in KindsIn(i) : k # "MultiFormatSchema", <<>>)
    [] g[i] = -1 -> O(<<<<"$ref", S(URL)>>>>)
    [] g[i] = -2 -> O(<<<<"$ref", S(CollPointer(Colls[i]) \o "nothing")>>>>)
    [] OTHER -> O(<<<<"$ref", S(Pointer(g[i]))>>>>)
CollSet == SetToSeq({Colls[i] : i \in Nodes})
Filled(g, where(_)) == Map(LAMBDA c :
   <<CollName(c), O(Map(LAMBDA i : <<NodeName(i), Content(g, i)>>, SelectSeq(Ixs(Colls), LAMBDA i : Colls[i] = c)))>>, SelectSeq(CollSet, where))
DocData(g) == O(<<<<"info", Object("Info", <<>>)>>>> \o Filled(g, AtRoot) \o <<<<"components", O(Filled(g, LAMBDA c : ~AtRoot(c)))>>>>)

VARIABLES g, start, cur, seen, out
vars == <<g, start, cur, seen, out>>
GInit == g \in Graphs /\ start \in Nodes /\ cur = start /\ seen = {} /\ out = "run"
Judge(i) == IF KindsIn(i) = KindsIn(start) THEN "good" ELSE "bad"
GNext == /\ out = "run"
         /\ IF cur \in seen THEN out' = "bad" /\ UNCHANGED <<cur, seen>>
            ELSE /\ seen' = seen \cup {cur}
                 /\ CASE g[cur] = 0 -> out' = Judge(cur) /\ UNCHANGED cur
                      [] g[cur] = -1 -> out' = "good" /\ UNCHANGED cur
                      [] g[cur] = -2 -> out' = "bad" /\ UNCHANGED cur
                      [] OTHER -> cur' = g[cur] /\ UNCHANGED out
         /\ UNCHANGED <<g, start>>
Spec == GInit /\ [][GNext]_vars /\ WF_vars(GNext)
Terminates == <>(out # "run")
(* no node is visited twice, so at most one hop per node *)
Short == Cardinality(seen) <= Len(Colls)
(* the hop machine decides what the specification of resolution decides *)
Typed == ParseObject("AsyncAPI3", DocData(g)).v
Agree == out # "run" => LET r == Resolve(Typed, Pointer(start)) IN (out = "good") = Good(r, KindsIn(start))
(* every graph once, as a document *)
Emit == (out = "run" /\ seen = {} /\ start = 1) => PrintT("CASE " \o ToJson(DocData(g)))
(* the form used for whole documents agrees with following one by one *)
Whole == out # "run" => LET ss == DocSlots(Typed) IN
   /\ \A i \in DOMAIN ss : Resolved(Typed, ss)[ss[i].ref] = Resolve(Typed, ss[i].ref)
   /\ UnifiedAccepts(Typed) = \A i \in DOMAIN ss : SlotOk(Typed, ss[i])
=============================================================================
