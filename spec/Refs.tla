-------------------------------- MODULE Refs --------------------------------
(* References in documents: where they stand, what they lead to, and the     *)
(* verdict of the unified reference validator.                               *)
EXTENDS ObjectModel

(* ---- expected kinds ---- *)
(* An alternative to a reference is the kind the reference must lead to;     *)
(* places that hold only references have their kind here.                    *)
OnlyRef(c, w) ==
  CASE c = "Channel" /\ w = "servers" -> {"Server"}
    [] w = "channel" -> {"Channel"}
    [] w = "messages" -> {"Message"}
    [] OTHER -> {}
Kinds(alts) == {alts[i].c : i \in {k \in DOMAIN alts : alts[k].k = "obj"}} \ {"Reference"}
RECURSIVE KindsOfType(_)
KindsOfType(ty) == CASE ty.k = "union" ->
                          Kinds(ty.alts) \cup UNION {KindsOfType(ty.alts[i]) : i \in {k \in DOMAIN ty.alts : ty.alts[k].k \in {"list", "dict"}}}
                     [] ty.k \in {"list", "dict"} -> KindsOfType(ty.of)
                     [] OTHER -> {}
HasRefT(ty) == ty.k = "union" /\ HasAlt(ty.alts, "Reference")
RECURSIVE MayHoldRef(_)
MayHoldRef(ty) == CASE ty.k = "union" -> \E i \in DOMAIN ty.alts : MayHoldRef(ty.alts[i])
                    [] ty.k \in {"list", "dict"} -> MayHoldRef(ty.of)
                    [] ty.k = "obj" -> ty.c = "Reference"
                    [] OTHER -> FALSE

(* kinds a reference directly in field i of class c must lead to *)
FieldKinds == TLCEval([c \in Classes |-> [i \in DOMAIN Meta[c].f |->
   LET f == Meta[c].f[i] IN
   IF ~MayHoldRef(f.ty) THEN {}
   ELSE LET k == KindsOfType(f.ty) IN IF k = {} THEN OnlyRef(c, f.w) ELSE k]])
ItemKinds == TLCEval([c \in Classes |-> IF Meta[c].x = "map" THEN Kinds(Alts(Meta[c].of)) ELSE {}])

ASSUME \A c \in Classes \ {"Reference"} : \A i \in DOMAIN Meta[c].f :
          MayHoldRef(Meta[c].f[i].ty) => FieldKinds[c][i] # {}

(* ---- classes from which a reference can be reached ---- *)
RECURSIVE TypeClasses(_)
TypeClasses(ty) == CASE ty.k = "union" -> UNION {TypeClasses(ty.alts[i]) : i \in DOMAIN ty.alts}
                     [] ty.k \in {"list", "dict"} -> TypeClasses(ty.of)
                     [] ty.k = "obj" -> {ty.c}
                     [] OTHER -> {}
Mentions == TLCEval([c \in Classes |-> IF Meta[c].x = "map" THEN TypeClasses(Meta[c].of)
                               ELSE UNION {TypeClasses(Meta[c].f[i].ty) : i \in DOMAIN Meta[c].f}])
RECURSIVE Grow(_)
Grow(s) == LET t == s \cup {c \in Classes : Mentions[c] \cap s # {}} IN IF t = s THEN s ELSE Grow(t)
HoldsRefs == TLCEval(Grow({"Reference"}))
RefFields == TLCEval([c \in Classes |-> {i \in DOMAIN Meta[c].f : TypeClasses(Meta[c].f[i].ty) \cap HoldsRefs # {}}])

(* ---- all references of a value, with the kinds they must lead to ---- *)
RefString(r) == r.v[1].v
RECURSIVE Slots(_, _), SlotsOfSeq(_, _), SlotsOfFields(_, _)
SlotsOfSeq(vs, kinds) == FlattenSeq(Map(LAMBDA v : Slots(v, kinds), vs))
SlotsOfFields(m, i) ==
  IF i > Len(m.v) THEN <<>>
  ELSE (IF i \in RefFields[m.c] /\ ~IsNull(m.v[i]) THEN Slots(m.v[i], FieldKinds[m.c][i]) ELSE <<>>) \o SlotsOfFields(m, i + 1)
Slots(v, kinds) ==
  CASE v.t = "m" /\ v.c = "Reference" -> <<[ref |-> RefString(v), kinds |-> kinds]>>
    [] v.t = "m" -> IF v.c \in HoldsRefs THEN SlotsOfFields(v, 1) ELSE <<>>
    [] v.t = "M" -> SlotsOfSeq(TLCEval([i \in 1..Len(v.v) |-> v.v[i][2]]), ItemKinds[v.c])
    [] v.t = "a" -> SlotsOfSeq(v.v, kinds)
    [] v.t = "o" -> SlotsOfSeq(TLCEval([i \in 1..Len(v.v) |-> v.v[i][2]]), kinds)
    [] OTHER -> <<>>
DocSlots(doc) == TLCEval(Slots(doc, {}))

(* ---- resolution ---- *)
IsExternal(ref) == HasPrefix(ref, "http://") \/ HasPrefix(ref, "https://")
IsInternal(ref) == HasPrefix(ref, "#")
Missing == [t |-> "missing", v |-> "missing"]
Index(pairs, key) == LET S1 == {i \in DOMAIN pairs : pairs[i][1] = key} IN IF S1 = {} THEN 0 ELSE CHOOSE i \in S1 : TRUE
(* one step from an object to a part of it *)
Step(v, part) ==
  CASE v.t = "m" -> IF IsField(v.c, part) /\ ~IsNull(v.v[FieldIx[v.c][part]]) THEN v.v[FieldIx[v.c][part]] ELSE Missing
    [] v.t \in {"M", "o"} -> LET i == Index(v.v, part) IN IF i = 0 THEN Missing ELSE v.v[i][2]
    [] OTHER -> Missing
RECURSIVE Walk(_, _)
Walk(v, parts) == IF Len(parts) = 0 THEN v ELSE LET w == Step(v, parts[1]) IN IF w.t = "missing" THEN w ELSE Walk(w, Tail(parts))
Parts(ref) == LET nonEmpty(p) == p # "" IN SelectSeq(Split(Drop(ref, 1), "/"), nonEmpty)

(* what a reference string leads to in one hop: an object, the outside, or nothing *)
Hop(doc, ref) == IF IsExternal(ref) THEN [t |-> "external", v |-> ref]
                 ELSE IF ~IsInternal(ref) \/ Parts(ref) = <<>> THEN Missing
                 ELSE Walk(doc, Parts(ref))

(* ... and in the end; going round in circles leads to nothing *)
RECURSIVE Follow(_, _, _)
Follow(doc, ref, seen) ==
  IF ref \in seen THEN Missing
  ELSE LET h == Hop(doc, ref) IN
       IF h.t = "m" /\ h.c = "Reference" THEN Follow(doc, RefString(h), seen \cup {ref}) ELSE h
Resolve(doc, ref) == Follow(doc, ref, {})

(* following a reference by hand: an object ("ok"), the outside ("none") or  *)
(* nothing ("rej"); the last reference; everything followed on the way       *)
RECURSIVE Trail(_, _, _)
Trail(doc, ref, seen) ==
  IF ref \in seen THEN [r |-> "rej", val |-> Missing, ref |-> ref, seen |-> seen]
  ELSE LET h == Hop(doc, ref) IN
       IF h.t = "m" /\ h.c = "Reference" THEN Trail(doc, RefString(h), seen \cup {ref})
       ELSE [r |-> IF h.t = "external" THEN "none" ELSE IF h.t = "missing" THEN "rej" ELSE "ok", val |-> h, ref |-> ref, seen |-> seen \cup {ref}]
RECURSIVE Dotted(_)
Dotted(parts) == IF Len(parts) = 0 THEN "" ELSE "." \o parts[1] \o Dotted(Tail(parts))

Good(r, kinds) == r.t = "external" \/ (r.t = "m" /\ r.c \in kinds)
SlotOk(doc, s) == Good(Resolve(doc, s.ref), s.kinds)

(* The same for all references of a document at once, in a form that suits   *)
(* long chains: every reference leads to the next one (or stays), and the    *)
(* leads are composed with themselves until they span the document.          *)
Pow2(n) == CHOOSE k \in 0..20 : 2 ^ k >= n /\ \A j \in 0..20 : 2 ^ j >= n => k <= j
RECURSIVE Doubled(_, _)
Doubled(lead, k) == IF k = 0 THEN lead ELSE Doubled(TLCEval([r \in DOMAIN lead |-> lead[lead[r]]]), k - 1)
Ends(doc, refs) ==
  LET hop == TLCEval([r \in refs |-> Hop(doc, r)])
      isRef(h) == h.t = "m" /\ h.c = "Reference"
      lead == TLCEval([r \in refs |-> IF isRef(hop[r]) THEN RefString(hop[r]) ELSE r])
      last == Doubled(lead, Pow2(Cardinality(refs) + 1))
  IN TLCEval([r \in refs |-> IF isRef(hop[last[r]]) THEN Missing ELSE hop[last[r]]])
Resolved(doc, ss) == Ends(doc, {ss[i].ref : i \in DOMAIN ss})

UnifiedAccepts(doc) == LET ss == DocSlots(doc)
                           e == Resolved(doc, ss)
                       IN \A i \in DOMAIN ss : Good(e[ss[i].ref], ss[i].kinds)
(* URLs a run that accepts must warn about *)
UnifiedWarnings(doc) == LET ss == DocSlots(doc)
                            e == Resolved(doc, ss)
                        IN {e[r].v : r \in {x \in DOMAIN e : e[x].t = "external"}}
=============================================================================
