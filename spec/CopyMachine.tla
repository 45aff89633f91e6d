----------------------------- MODULE CopyMachine -----------------------------
(* A document with a validator (1), a copy of it (2) and a copy of its       *)
(* channels (3), copied to and fro, changed on every side and placed into    *)
(* each other.  Explored completely; every transition is written out with a  *)
(* shortest history and replayed on the code.                                *)
EXTENDS CaseData

Hd(i) == [t |-> "h", v |-> i]
Unified == <<"Unified">>
Data0 == O(<<<<"info", O(<<<<"title", S("t")>>, <<"version", S("1")>>>>)>>, <<"channels", O(<<<<"c", O(<<>>)>>>>)>>>>)
Channels0 == O(<<<<"c", O(<<>>)>>>>)
Heap0 == <<Construct("AsyncAPI3", Data0, Unified).val, Construct("AsyncAPI3", Data0, Unified).val, ParseObject("Channels", Channels0).v>>
Start == <<[op |-> "new", id |-> 1, c |-> "AsyncAPI3", arg |-> Data0, procs |-> Unified, how |-> "data"],
           [op |-> "copy", id |-> 1, path |-> <<>>, to |-> 2, how |-> "deepcopy"],
           [op |-> "new", id |-> 3, c |-> "Channels", arg |-> Channels0, procs |-> <<>>, how |-> "data"]>>

CopyOp(id, path, to) == [op |-> "copy", id |-> id, path |-> path, to |-> to, how |-> "deepcopy"]
SetOp(id, path, name, arg) == [op |-> "set", id |-> id, path |-> path, name |-> name, arg |-> arg]
PutOp(id, path, key, arg) == [op |-> "put", id |-> id, path |-> path, key |-> key, arg |-> arg]
DelOp(id, path, key) == [op |-> "del", id |-> id, path |-> path, key |-> key]
Oper == O(<<<<"o", Object("Operation", <<<<"channel", O(<<<<"$ref", S("#/channels/c")>>>>)>>>>)>>>>)
OnDoc(i) == <<SetOp(i, <<>>, "operations", Oper), SetOp(i, <<>>, "operations", N), SetOp(i, <<>>, "channels", O(<<>>)), SetOp(i, <<>>, "channels", Hd(3)),
              DelOp(i, <<"channels">>, "c"), SetOp(i, <<"channels", "c">>, "address", S("a"))>>
Ops == <<CopyOp(1, <<>>, 2), CopyOp(2, <<>>, 1), CopyOp(1, <<"channels">>, 3), CopyOp(2, <<"channels">>, 3), PutOp(3, <<>>, "c", O(<<>>))>> \o OnDoc(1) \o OnDoc(2)

VARIABLES heap, hist, r
vars == <<heap, hist, r>>
RECURSIVE There(_, _)
There(v, p) == IF Len(p) = 0 THEN v.t # "n" ELSE v.t \in {"m", "M"} /\ Step(v, p[1]).t # "missing" /\ There(Step(v, p[1]), Tail(p))
Arg(o) == IF o.op \in {"set", "put"} THEN Subst([i \in 1..3 |-> [val |-> heap[i]]], o.arg) ELSE N
Result(o) ==
  IF o.op = "copy" THEN Res("ok", PartAt(heap[o.id], o.path))
  ELSE IF o.op = "set" /\ o.path = <<>> THEN Assign(heap[o.id], o.name, Arg(o), Unified)
  ELSE OnPart(heap[o.id], o.path, LAMBDA p : CASE o.op = "set" -> Assign(p, o.name, Arg(o), <<>>)
                                               [] o.op = "put" -> PutItem(p, o.key, Arg(o))
                                               [] o.op = "del" -> DelItem(p, o.key))
To(o) == IF o.op = "copy" THEN o.to ELSE o.id
Init == heap = Heap0 /\ hist = <<>> /\ r = "ok"
Next == \E k \in DOMAIN Ops : LET o == Ops[k] IN
  /\ There(heap[o.id], o.path)
  /\ LET x == Result(o) IN heap' = [heap EXCEPT ![To(o)] = x.val] /\ r' = x.r
  /\ hist' = Append(hist, k)
View == heap
LastOp(h) == Ops[h[Len(h)]]

(* a copy is what was copied; nothing else changes, and a rejected operation changes nothing *)
Copies == [][LET o == LastOp(hist') IN o.op = "copy" => Same(heap'[o.to], PartAt(heap[o.id], o.path))]_vars
Apart == [][LET o == LastOp(hist') IN \A j \in 1..3 : (j # To(o) \/ r' # "ok") => Same(heap'[j], heap[j])]_vars
(* the validators of a document are those of its copies *)
Checked2 == [][LET o == LastOp(hist') IN (o.op = "set" /\ o.path = <<>> /\ r' = "ok") => UnifiedAccepts(heap'[o.id])]_vars
Emit == PrintT("CASE " \o ToJson(hist'))
Stop == r = "never"
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, [start |-> Start, ops |-> Ops])
=============================================================================
