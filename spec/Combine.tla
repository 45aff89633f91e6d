------------------------------- MODULE Combine -------------------------------
(* Shipped validators together: documents with or without each of several    *)
(* defects, judged by lists of validators.  Explored completely; every       *)
(* document with every list is written out and given to the code.            *)
EXTENDS Processors, Json, IOUtils
CONSTANT MaxLen

Judges == <<"Unified", "Tags", "Docs">>
Pool == Judges \o <<ShippedKinds[1], ShippedKinds[Len(ShippedKinds)]>>
RefTo(s) == O(<<<<"$ref", S(s)>>>>)
(* the defects: a tag that does not exist; documentation that does but not among the components; *)
(* a channel that does not exist; an unsupported string; a reference to the outside is none      *)
Flags == 1..5
Doc(f) ==
  O(<<<<"info", O(<<<<"title", S("t")>>, <<"version", S("1")>>,
                    <<"tags", A(<<RefTo(IF 1 \in f THEN "#/components/tags/none" ELSE "#/components/tags/t")>>)>>,
                    <<"externalDocs", O(<<<<"url", S("https://example.com/")>>>>)>>>>)>>,
      <<"channels", O(<<<<"c", O(<<<<"externalDocs", RefTo(IF 2 \in f THEN "#/info/externalDocs" ELSE "#/components/externalDocs/d")>>>>)>>>>)>>,
      <<"operations", O(<<<<"o", O(<<<<"action", S("send")>>, <<"channel", RefTo(IF 3 \in f THEN "#/channels/none" ELSE "#/channels/c")>>,
                                     <<"externalDocs", RefTo(IF 5 \in f THEN "https://example.com/d" ELSE "#/components/externalDocs/d")>>>>)>>>>)>>,
      <<"components", O(<<<<"tags", O(<<<<"t", O(<<<<"name", S("t")>>>>)>>>>)>>,
                          <<"externalDocs", O(<<<<"d", IF 4 \in f THEN RefTo("elsewhere.yaml") ELSE O(<<<<"url", S("https://example.com/")>>>>)>>>>)>>>>)>>>>)
Value(f) == ParseObject("AsyncAPI3", Doc(f)).v
Values == [f \in SUBSET Flags |-> Value(f)]
Single == [f \in SUBSET Flags |-> [p \in {Pool[i] : i \in DOMAIN Pool} |-> Verdict(p, Values[f])]]

VARIABLES flags, list
vars == <<flags, list>>
Init == flags \in SUBSET Flags /\ list = <<>>
Next == \/ \E i \in DOMAIN Pool : Len(list) < MaxLen /\ list' = Append(list, Pool[i]) /\ UNCHANGED flags
        \/ \E f \in Flags : flags' = (IF f \in flags THEN flags \ {f} ELSE flags \cup {f}) /\ UNCHANGED list

V(l) == Verdicts(l, Values[flags])
(* a list accepts exactly what each of its members accepts, whatever the order and the repetitions *)
Conjunction == V(list) = IF \A i \in DOMAIN list : Single[flags][list[i]] = "ok" THEN "ok" ELSE "rej"
(* only the three reference validators refuse, and each for its own reasons *)
Reasons == /\ Single[flags]["Unified"] = IF flags \cap {1, 3, 4} = {} THEN "ok" ELSE "rej"
           /\ Single[flags]["Tags"] = IF 1 \in flags THEN "rej" ELSE "ok"
           /\ Single[flags]["Docs"] = IF 2 \in flags THEN "rej" ELSE "ok"
           /\ \A i \in DOMAIN ShippedKinds : Verdict(ShippedKinds[i], Values[flags]) = "ok"
Emit == PrintT("CASE " \o ToJson([d |-> Doc(flags), list |-> list]))
=============================================================================
