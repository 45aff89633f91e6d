------------------------------ MODULE Objects ------------------------------
(* Live objects and what the public operations do to them.  Each operation   *)
(* is an operator from the current value of the object to [r, val]:          *)
(* r is "ok", "rej" (a validation error and no change), "key" (KeyError and  *)
(* no change), or "any" where nothing is specified.                          *)
EXTENDS ListedRefs

(* ---- validators attached to a document ---- *)
Verdict(p, doc) ==
  CASE p = "Unified" -> IF UnifiedAccepts(doc) THEN "ok" ELSE "rej"
    [] p = "Tags" -> TagsVerdict(doc)
    [] p = "Docs" -> DocsVerdict(doc)
    [] OTHER -> "ok"
Verdicts(procs, doc) ==
  LET r == TLCEval([i \in 1..Len(procs) |-> Verdict(procs[i], doc)])
  IN IF \E i \in DOMAIN r : r[i] = "rej" THEN "rej" ELSE IF \E i \in DOMAIN r : r[i] = "any" THEN "any" ELSE "ok"
Checked(procs, v) == IF v.t = "m" /\ v.c = "AsyncAPI3" /\ procs # <<>> THEN Verdicts(procs, v) ELSE "ok"

(* ---- handles: [t |-> "h", v |-> id] stands for the live object id ---- *)
RECURSIVE Subst(_, _)
Subst(heap, v) ==
  CASE v.t = "h" -> heap[v.v].val
    [] v.t = "a" -> A(Map(LAMBDA e : Subst(heap, e), v.v))
    [] v.t = "o" -> O(Map(LAMBDA p : <<p[1], Subst(heap, p[2])>>, v.v))
    [] OTHER -> v

Res(r, v) == [r |-> r, val |-> v]

(* ---- construction ---- *)
Construct(c, data, procs) ==
  LET p == ParseObject(c, data) IN
  IF ~p.ok THEN Res("rej", N) ELSE Res(Checked(procs, p.v), p.v)

(* ---- assignment of an attribute ---- *)
SetPair(pairs, k, v) == LET i == Index(pairs, k) IN IF i = 0 THEN Append(pairs, <<k, v>>) ELSE [pairs EXCEPT ![i] = <<k, v>>]
Assigned(m, name, data) ==
  IF m.t = "M" THEN (IF name = "root" /\ data.t = "o" THEN ParseObject(m.c, data) ELSE Fail)
  ELSE IF IsField(m.c, name) /\ Meta[m.c].f[FieldIx[m.c][name]].py = name THEN
     LET i == FieldIx[m.c][name]
         p == Parse(Meta[m.c].f[i].ty, data)
         vals == [m.v EXCEPT ![i] = p.v]
     IN IF p.ok THEN Accept(Rule(m.c, vals), [m EXCEPT !.v = vals]) ELSE Fail
  ELSE IF ExtraOk(m.c, name) THEN Accept(Rule(m.c, m.v), [m EXCEPT !.x = SetPair(@, name, data)])
  ELSE Fail
Assign(m, name, data, procs) ==
  LET p == Assigned(m, name, data) IN
  IF ~p.ok THEN Res("rej", m)
  ELSE LET k == Checked(procs, p.v) IN IF k = "rej" THEN Res("rej", m) ELSE Res(k, p.v)

(* ---- named collections ---- *)
PutItem(m, key, data) ==
  LET p == Parse(Meta[m.c].of, data) IN
  IF p.ok /\ IsKey(key) THEN Res("ok", [m EXCEPT !.v = SetPair(@, key, p.v)]) ELSE Res("rej", m)
DelItem(m, key) ==
  LET i == Index(m.v, key) IN
  IF i = 0 THEN Res("key", m) ELSE Res("ok", [m EXCEPT !.v = RemoveAt(@, i)])

(* ---- reference constructors: the collection they point into ---- *)
Constructors == [
  to_root_server_name |-> <<"servers">>,
  to_root_channel_name |-> <<"channels">>,
  to_root_operation_name |-> <<"operations">>,
  to_component_schema_name |-> <<"components", "schemas">>,
  to_component_server_name |-> <<"components", "servers">>,
  to_component_channel_name |-> <<"components", "channels">>,
  to_component_operation_name |-> <<"components", "operations">>,
  to_component_message_name |-> <<"components", "messages">>,
  to_component_security_scheme_name |-> <<"components", "securitySchemes">>,
  to_component_server_variable_name |-> <<"components", "serverVariables">>,
  to_component_parameter_name |-> <<"components", "parameters">>,
  to_component_correlation_id_name |-> <<"components", "correlationIds">>,
  to_component_reply_name |-> <<"components", "replies">>,
  to_component_reply_address_name |-> <<"components", "replyAddresses">>,
  to_component_external_doc_name |-> <<"components", "externalDocs">>,
  to_component_tag_name |-> <<"components", "tags">>,
  to_component_operation_trait_name |-> <<"components", "operationTraits">>,
  to_component_message_trait_name |-> <<"components", "messageTraits">>,
  to_component_server_binding_name |-> <<"components", "serverBindings">>,
  to_component_channel_binding_name |-> <<"components", "channelBindings">>,
  to_component_operation_binding_name |-> <<"components", "operationBindings">>,
  to_component_message_binding_name |-> <<"components", "messageBindings">>]
(* the kind of the objects in a collection of the document *)
CollClass(path) == LET c == IF Len(path) = 1 THEN "AsyncAPI3" ELSE "Components"
                       name == path[Len(path)]
                   IN Meta[c].f[FieldIx[c][name]].ty.alts[1].c
ASSUME \A k \in DOMAIN Constructors : Meta[CollClass(Constructors[k])].x = "map"
(* what a constructor must denote: in every document the item of that name in that collection *)
Denotes(path, name, r) == r.t = "m" /\ r.c = "Reference" /\ IsInternal(RefString(r)) /\ Parts(RefString(r)) = Append(path, name)

(* ---- parts of objects ---- *)
(* a path is a sequence of field names, keys, and list positions <<"@", i>> *)
RECURSIVE PartAt(_, _)
StepIn(v, s) == IF v.t = "a" THEN v.v[s] ELSE Step(v, s)
PartAt(v, path) == IF Len(path) = 0 THEN v ELSE PartAt(StepIn(v, path[1]), Tail(path))
RECURSIVE Replace(_, _, _)
Replace(v, path, new) ==
  IF Len(path) = 0 THEN new
  ELSE LET s == path[1] IN
    CASE v.t = "m" -> [v EXCEPT !.v[FieldIx[v.c][s]] = Replace(@, Tail(path), new)]
      [] v.t \in {"M", "o"} -> [v EXCEPT !.v[Index(v.v, s)] = <<s, Replace(v.v[Index(v.v, s)][2], Tail(path), new)>>]
      [] v.t = "a" -> [v EXCEPT !.v[s] = Replace(@, Tail(path), new)]
      [] OTHER -> v
(* an operation on the part at path; only an operation on the whole document runs its validators *)
OnPart(root, path, op(_)) == LET r == op(PartAt(root, path)) IN Res(r.r, Replace(root, path, r.val))
=============================================================================
