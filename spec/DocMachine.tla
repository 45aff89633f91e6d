----------------------------- MODULE DocMachine -----------------------------
(* A document with validators under histories of assignments and in-place    *)
(* edits.  Every top-level field has a few candidate values, chosen so that  *)
(* they depend on each other through references.  The machine is explored    *)
(* completely; every state and every action in it is replayed on the code.   *)
EXTENDS CaseData

CONSTANT Procs     \* the validators of the document
P_Unified == <<"Unified">>
P_Tags == <<"Tags">>
P_Docs == <<"Docs">>
P_All == <<"Tags", "Docs", "Unified">>
P_None == <<>>

R(s) == O(<<<<"$ref", S(s)>>>>)
M(k, v) == O(<<<<k, v>>>>)
Server == Object("Server", <<>>)
Msg == Object("Message", <<>>)
Chan(given) == Object("Channel", given)
Doc == Object("ExternalDocumentation", <<>>)
Tag == Object("Tag", <<>>)
Basic == <<<<"title", S("t")>>, <<"version", S("1")>>>>
(* candidate values of each field; the first is the initial one *)
Fields == <<"info", "servers", "channels", "operations", "components">>
Values == [
  info |-> <<O(Basic),
             O(Basic \o <<<<"tags", A(<<R("#/components/tags/t")>>)>>>>),
             O(Basic \o <<<<"externalDocs", R("#/components/externalDocs/d")>>, <<"tags", A(<<Tag, R("https://example.com/t")>>)>>>>)>>,
  servers |-> <<N, M("s", Server), M("s", R("#/components/servers/s"))>>,
  channels |-> <<N, M("c", Chan(<<<<"messages", M("m", Msg)>>>>)),
                 M("c", Chan(<<<<"servers", A(<<R("#/servers/s")>>)>>, <<"tags", A(<<R("#/components/tags/t")>>)>>>>))>>,
  operations |-> <<N, M("o", Object("Operation", <<<<"channel", R("#/channels/c")>>>>)),
                   M("o", Object("Operation", <<<<"channel", R("#/channels/c")>>, <<"messages", A(<<R("#/channels/c/messages/m")>>)>>, <<"externalDocs", R("#/components/externalDocs/d")>>>>))>>,
  components |-> <<N, O(<<<<"servers", M("s", Server)>>, <<"tags", M("t", Tag)>>, <<"externalDocs", M("d", Doc)>>>>),
                   O(<<<<"servers", M("s", R("#/servers/s"))>>, <<"tags", M("t", R("#/components/tags/t"))>>>>)>>]
(* other assignments: values no field accepts, extensions, unknown names *)
Odd == <<<<"asyncapi", S("2.6.0")>>, <<"servers", I(1)>>, <<"info", N>>, <<"components", O(<<<<"tags", M("a b", Tag)>>>>)>>,
         <<"x-a", R("#/nowhere")>>, <<"asyncapi", S("3.1.0")>>, <<"zzz", I(1)>>, <<"id", S("urn:x:y")>>, <<"channels", M("c", R("#/channels/c"))>>>>
(* in-place edits of nested collections, which no validator sees *)
Edits == <<<<"put", <<"components", "servers">>, "s", R("#/nowhere")>>, <<"del", <<"components", "tags">>, "t", N>>,
           <<"put", <<"servers">>, "s", R("https://example.com/s")>>, <<"del", <<"channels">>, "c", N>>, <<"put", <<"components", "tags">>, "t", Tag>>>>

VARIABLES doc, last
vars == <<doc, last>>
Start == Construct("AsyncAPI3", O(<<<<"info", Values.info[1]>>>>), Procs).val
Init == doc = Start /\ last = <<"start">>
Sets == ConcatAll([i \in DOMAIN Fields |-> [k \in 1..3 |-> <<Fields[i], Values[Fields[i]][k]>>]]) \o Odd
Set(c) == LET r == Assign(doc, c[1], c[2], Procs) IN
          doc' = r.val /\ last' = <<"set", c[1], c[2], r.r>>
There(e) == LET RECURSIVE ok(_, _)
                ok(v, p) == IF Len(p) = 0 THEN v.t = "M" ELSE LET w == Step(v, p[1]) IN w.t # "missing" /\ ok(w, Tail(p))
            IN ok(doc, e[2]) /\ Index(PartAt(doc, e[2]).v, e[3]) # 0
Edit(e) == /\ There(e)
           /\ doc' = (IF e[1] = "put" THEN OnPart(doc, e[2], LAMBDA p : PutItem(p, e[3], e[4])).val
                      ELSE OnPart(doc, e[2], LAMBDA p : DelItem(p, e[3])).val)
           /\ last' = <<e[1], e[2], e[3], e[4]>>
Next == (\E i \in DOMAIN Sets : Set(Sets[i])) \/ (\E i \in DOMAIN Edits : Edit(Edits[i]))
(* extensions and version are not explored further *)
Bound == doc.x = <<>> /\ doc.v[1].v = "3.0.0" /\ IsNull(doc.v[2])
Hide == doc

(* after an accepted assignment every validator accepts the document; a rejected one changes nothing *)
Consistent == [][last'[1] = "set" =>
   /\ last'[4] = "ok" => (Verdicts(Procs, doc') = "ok" /\ ParseObject("AsyncAPI3", doc').ok)
   /\ last'[4] = "rej" => Same(doc', doc)]_vars
(* from every state some assignments lead back to a consistent document *)
Repairable == \E i, j \in 1..3 : LET f(m, n, k) == Assigned(m, n, Values[n][k]).v IN
   Verdicts(Procs, f(f(f(f(f(doc, "info", 1), "servers", 1), "channels", i), "operations", 1), "components", j)) # "rej"
Actions == [values |-> Values, sets |-> Sets, edits |-> Edits]
Stop == last[1] = "never"
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, Actions)
=============================================================================
