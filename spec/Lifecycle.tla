------------------------------ MODULE Lifecycle ------------------------------
(* Three live objects that are placed into each other, changed, invalidated  *)
(* in place and repaired: a Parameter (1), a Channel (2) whose parameters    *)
(* need a fitting address, and a Parameters collection (3).  The machine is  *)
(* explored completely; every transition is written out with a shortest      *)
(* history and replayed on the code.                                         *)
EXTENDS CaseData

Hd(i) == [t |-> "h", v |-> i]
P0 == Object("Parameter", <<>>)
Heap0 == <<ParseObject("Parameter", P0).v, ParseObject("Channel", O(<<>>)).v, ParseObject("Parameters", O(<<>>)).v>>

(* operations; path and arguments as in the traces of Conform *)
SetOp(id, path, name, arg) == [op |-> "set", id |-> id, path |-> path, name |-> name, arg |-> arg]
PutOp(id, path, key, arg) == [op |-> "put", id |-> id, path |-> path, key |-> key, arg |-> arg]
DelOp(id, path, key) == [op |-> "del", id |-> id, path |-> path, key |-> key]
JunkOp(id, path) == [op |-> "append", id |-> id, path |-> path, arg |-> I(3)]
Ops == <<
  SetOp(1, <<>>, "description", S("a")), SetOp(1, <<>>, "description", N), SetOp(1, <<>>, "description", I(1)),
  SetOp(1, <<>>, "enum", A(<<>>)), SetOp(1, <<>>, "enum", N), JunkOp(1, <<"enum">>),
  SetOp(2, <<>>, "address", S("{x}")), SetOp(2, <<>>, "address", S("plain")), SetOp(2, <<>>, "address", N),
  SetOp(2, <<>>, "parameters", N), SetOp(2, <<>>, "parameters", Hd(3)), SetOp(2, <<>>, "parameters", Hd(1)),
  SetOp(2, <<>>, "parameters", O(<<<<"x", Hd(1)>>>>)), SetOp(2, <<>>, "parameters", O(<<<<"x y", Hd(1)>>>>)),
  PutOp(2, <<"parameters">>, "x", Hd(1)), DelOp(2, <<"parameters">>, "x"),
  SetOp(2, <<"parameters", "x">>, "description", S("b")), JunkOp(2, <<"parameters", "x", "enum">>),
  PutOp(3, <<>>, "x", Hd(1)), PutOp(3, <<>>, "x", Hd(2)), PutOp(3, <<>>, "x", P0), DelOp(3, <<>>, "x"),
  SetOp(3, <<"x">>, "description", S("b")), JunkOp(3, <<"x", "enum">>), SetOp(3, <<>>, "root", O(<<<<"x", Hd(1)>>>>))>>

VARIABLES heap, hist, r
vars == <<heap, hist, r>>
RECURSIVE There(_, _)
There(v, p) == IF Len(p) = 0 THEN v.t # "n" ELSE v.t \in {"m", "M"} /\ Step(v, p[1]).t # "missing" /\ There(Step(v, p[1]), Tail(p))
Result(o) ==
  LET v == heap[o.id]
      arg == IF o.op \in {"set", "put"} THEN Subst([i \in 1..3 |-> [val |-> heap[i]]], o.arg) ELSE N
  IN OnPart(v, o.path, LAMBDA p : CASE o.op = "set" -> Assign(p, o.name, arg, <<>>)
                                    [] o.op = "put" -> PutItem(p, o.key, arg)
                                    [] o.op = "del" -> DelItem(p, o.key)
                                    [] o.op = "append" -> Res("ok", [p EXCEPT !.v = Append(@, o.arg)]))
Init == heap = Heap0 /\ hist = <<>> /\ r = "ok"
Next == \E k \in DOMAIN Ops : LET o == Ops[k] IN
  /\ There(heap[o.id], o.path)
  /\ o.op = "append" => Len(PartAt(heap[o.id], o.path).v) = 0
  /\ LET x == Result(o) IN heap' = [heap EXCEPT ![o.id] = x.val] /\ r' = x.r
  /\ hist' = Append(hist, k)
View == heap
Sound(i) == ParseObject(heap[i].c, heap[i]).ok

(* a rejected operation changes nothing; an operation changes one object only *)
Atomic == [][LET o == Ops[hist'[Len(hist')]] IN
             /\ r' # "ok" => Same(heap'[1], heap[1]) /\ Same(heap'[2], heap[2]) /\ Same(heap'[3], heap[3])
             /\ \A j \in 1..3 : j # o.id => Same(heap'[j], heap[j])]_vars
(* what was never touched in place is what its own data gives *)
Rebuilt == \A i \in 1..3 : Sound(i) => Same(ParseObject(heap[i].c, Data(Dump(heap[i]))).v, heap[i])
(* an assignment to a sound object is accepted exactly when constructing the object with the new value would be *)
Agrees == [][LET o == Ops[hist'[Len(hist')]] IN
             (o.op = "set" /\ o.path = <<>> /\ o.name # "root" /\ ParseObject(heap[o.id].c, heap[o.id]).ok) =>
             LET arg == Subst([i \in 1..3 |-> [val |-> heap[i]]], o.arg)
                 i == FieldIx[heap[o.id].c][o.name]
                 p == ParseObject(heap[o.id].c, [heap[o.id] EXCEPT !.v[i] = arg])
             IN (r' = "ok") = p.ok /\ (p.ok => Same(p.v, heap'[o.id]))]_vars
(* sound objects only become unsound by changes in place *)
StaysSound == [][LET o == Ops[hist'[Len(hist')]] IN
                 (o.path = <<>> /\ ParseObject(heap[o.id].c, heap[o.id]).ok) => ParseObject(heap'[o.id].c, heap'[o.id]).ok]_vars
Emit == PrintT("CASE " \o ToJson(hist'))
Stop == r = "never"
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, [ops |-> Ops])
=============================================================================
