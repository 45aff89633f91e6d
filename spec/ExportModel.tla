---------------------------- MODULE ExportModel ----------------------------
(* Writes the object model table and the reference places, for the drivers.  *)
EXTENDS ListedRefs, Json, IOUtils
TagSeq == SetToSeq(TagPlaces)
DocSeq == SetToSeq(DocPlaces)
ASSUME JsonSerialize(IOEnv.OUT, [
   meta |-> Meta,
   wordLike |-> WordLike,
   fieldKinds |-> FieldKinds,
   itemKinds |-> ItemKinds,
   tagPlaces |-> TagSeq,
   docPlaces |-> DocSeq])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
