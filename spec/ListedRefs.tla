----------------------------- MODULE ListedRefs -----------------------------
(* The tags and external docs validators: the documented places, and the     *)
(* verdict.  A place is a path of field names; "*" is every item of a map,   *)
(* "[]" every element of a list.                                             *)
EXTENDS Refs

P(s) == Split(s, ".")
Places(strings) == {P(s) : s \in strings}
TagPlaces == Places({
  "info.tags.[]", "servers.*.tags.[]", "channels.*.tags.[]", "channels.*.messages.*.tags.[]", "operations.*.tags.[]",
  "channels.*.messages.*.traits.[].tags.[]", "operations.*.traits.[].tags.[]",
  "components.servers.*.tags.[]", "components.channels.*.tags.[]", "components.channels.*.messages.*.tags.[]",
  "components.operations.*.tags.[]", "components.messages.*.tags.[]",
  "components.channels.*.messages.*.traits.[].tags.[]", "components.operations.*.traits.[].tags.[]", "components.messages.*.traits.[].tags.[]",
  "components.operationTraits.*.tags.[]", "components.messageTraits.*.tags.[]", "components.tags.*"})
DocPlaces == Places({
  "info.externalDocs", "info.tags.[].externalDocs", "servers.*.externalDocs", "channels.*.externalDocs",
  "channels.*.messages.*.externalDocs", "channels.*.messages.*.headers.externalDocs", "channels.*.messages.*.payload.externalDocs",
  "channels.*.messages.*.tags.[].externalDocs", "channels.*.messages.*.traits.[].externalDocs",
  "channels.*.messages.*.traits.[].headers.externalDocs", "channels.*.messages.*.traits.[].tags.[].externalDocs",
  "operations.*.externalDocs", "operations.*.tags.[].externalDocs", "operations.*.traits.[].externalDocs", "operations.*.traits.[].tags.[].externalDocs",
  "components.channels.*.externalDocs", "components.channels.*.messages.*.externalDocs",
  "components.channels.*.messages.*.traits.[].externalDocs", "components.channels.*.messages.*.traits.[].tags.[].externalDocs",
  "components.externalDocs.*",
  "components.messages.*.externalDocs", "components.messages.*.headers.externalDocs", "components.messages.*.payload.externalDocs",
  "components.messages.*.traits.[].externalDocs", "components.messages.*.traits.[].tags.[].externalDocs",
  "components.messageTraits.*.externalDocs", "components.messageTraits.*.headers.externalDocs",
  "components.operations.*.externalDocs", "components.operations.*.traits.[].externalDocs", "components.operations.*.traits.[].tags.[].externalDocs",
  "components.operationTraits.*.externalDocs", "components.servers.*.externalDocs", "components.tags.*.externalDocs", "components.schemas.*.externalDocs"})

(* the values standing at a place *)
RECURSIVE AtPlace(_, _)
ConcatAll(ss) == FlattenSeq(ss)
AtPlace(v, path) ==
  IF Len(path) = 0 THEN <<v>>
  ELSE CASE path[1] = "*" -> IF v.t = "M" THEN ConcatAll(Map(LAMBDA p : AtPlace(p[2], Tail(path)), v.v)) ELSE <<>>
         [] path[1] = "[]" -> IF v.t = "a" THEN ConcatAll(Map(LAMBDA e : AtPlace(e, Tail(path)), v.v)) ELSE <<>>
         [] OTHER -> IF v.t = "m" /\ IsField(v.c, path[1])
                     THEN AtPlace(v.v[FieldIx[v.c][path[1]]], Tail(path)) ELSE <<>>
IsRef(v) == v.t = "m" /\ v.c = "Reference"
RefsAt(doc, places) == ConcatAll(Map(LAMBDA p : SelectSeq(AtPlace(doc, p), IsRef), SetToSeq(places)))

(* is this reference string fine for the collection at prefix? *)
ListedOk(doc, prefix, coll, ref) ==
  IF ~IsInternal(ref) THEN TRUE
  ELSE /\ HasPrefix(ref, prefix)
       /\ LET items == Walk(doc, <<"components", coll>>)
          IN items.t = "M" /\ Drop(ref, Len(prefix)) \in Keys(items.v)
ListedBad(doc, places, prefix, coll) ==
  LET rs == RefsAt(doc, places) IN \E i \in DOMAIN rs : ~ListedOk(doc, prefix, coll, RefString(rs[i]))
(* every reference of this kind, documented place or not *)
AnyBad(doc, kind, prefix, coll) ==
  LET ss == DocSlots(doc) IN \E i \in DOMAIN ss : ss[i].kinds = {kind} /\ ~ListedOk(doc, prefix, coll, ss[i].ref)

(* "ok", "rej", or "any" where the documentation is silent *)
Listed(doc, places, kind, coll) ==
  LET prefix == "#/components/" \o coll \o "/" IN
  IF ListedBad(doc, places, prefix, coll) THEN "rej"
  ELSE IF AnyBad(doc, kind, prefix, coll) THEN "any" ELSE "ok"
TagsVerdict(doc) == Listed(doc, TagPlaces, "Tag", "tags")
DocsVerdict(doc) == Listed(doc, DocPlaces, "ExternalDocumentation", "externalDocs")

(* reference strings to be warned about, once per reference *)
ListedWarnings(doc, places) == LET ext(r) == ~IsInternal(RefString(r)) IN
  Map(RefString, SelectSeq(RefsAt(doc, places), ext))
=============================================================================
