------------------------------- MODULE Cases -------------------------------
(* Checks that the enumeration of CaseData is faithful, item by item, and    *)
(* writes it out for replay on the real code.                                *)
EXTENDS CaseData

ClassSeq == SetToSeq(Classes)

(* ---- checking the enumeration, one item per state ---- *)
VARIABLE at
Counts == [ref |-> Len(AllRefPlaces), part |-> Len(AllPartPlaces), holder |-> Len(AllHolderPlaces), class |-> Len(ClassSeq)]
Init == at = <<"start", 0>>
Next == at[1] = "start" /\ \E w \in {"ref", "part", "holder", "class"}, k \in 1..2000 : k <= Counts[w] /\ at' = <<w, k>>
AsDoc(d) == ParseObject("AsyncAPI3", d)
(* the document of a reference place is valid and holds exactly that reference, with these kinds *)
RefPlaceFaithful == at[1] = "ref" =>
  LET r == AllRefPlaces[at[2]]
      p == AsDoc(r.d)
  IN p.ok /\ r.kinds # {} /\ r.kinds \subseteq Classes /\ SelectSeq(DocSlots(p.v), LAMBDA x : x.ref # URL) = <<[ref |-> "@", kinds |-> r.kinds]>>
(* the document of a part is valid and the part is found at its path, with its kind *)
PartFaithful == at[1] = "part" =>
  LET r == AllPartPlaces[at[2]]
      p == AsDoc(r.d)
      w == Walk(p.v, r.path)
  IN p.ok /\ (r.path = <<>> \/ r.kinds = {IF w.t \in {"m", "M"} THEN w.c ELSE "other"}) /\ w.t # "missing"
(* the document of a holder is valid; what is found at its path holds an item and is of none of the kinds of its items *)
HolderFaithful == at[1] = "holder" =>
  LET r == AllHolderPlaces[at[2]]
      p == AsDoc(r.d)
      w == Walk(p.v, r.path)
  IN p.ok /\ w.t \in {"a", "o", "m", "M"} /\ w.v # <<>> /\ (w.t \in {"m", "M"} => w.c \notin r.of)
(* every documented place of the tags and external docs validators is such a place *)
ListedPlaces == at[1] = "start" =>
  LET kinds(p) == {AllRefPlaces[i].kinds : i \in {k \in DOMAIN AllRefPlaces : AllRefPlaces[k].path = p}}
  IN /\ \A p \in TagPlaces : kinds(p) = {{"Tag"}}
     /\ \A p \in DocPlaces : kinds(p) = {{"ExternalDocumentation"}}
(* minimal objects are valid; writing and reading back changes nothing; defaults are written *)
MinimalFaithful == at[1] = "class" =>
  LET c == ClassSeq[at[2]]
      good == SelectSeq(ProbeCases(c) \o OmitCases(c), LAMBDA d : ParseObject(c, d).ok)
  IN /\ ParseObject(c, Object(c, <<>>)).ok
     /\ \A i \in DOMAIN good :
          LET o == ParseObject(c, good[i]).v
              again == ParseObject(c, Data(Dump(o)))
          IN again.ok /\ Same(again.v, Refill(o)) /\ (Lossy(o) \/ Same(Dump(again.v), Dump(o)))

(* ---- export ---- *)
Export(file) == JsonSerialize(file,
  CASE IOEnv.WHAT = "refs" -> [refs |-> AllRefPlaces, parts |-> AllPartPlaces, holders |-> AllHolderPlaces, kinds |-> AllKinds,
                               tags |-> TagPlaces, docs |-> DocPlaces,
                               ctors |-> [k \in DOMAIN Constructors |-> [path |-> Constructors[k], class |-> CollClass(Constructors[k])]]]
    [] IOEnv.WHAT = "probes" -> [probes |-> [c \in Classes |-> ProbeCases(c)], omits |-> [c \in Classes |-> OmitCases(c)],
                                 minimal |-> [c \in Classes |-> Object(c, <<>>)]])
Exported == (IOEnv.OUT # "") => Export(IOEnv.OUT)
ASSUME Exported
Stop == at[1] = "never"
=============================================================================
