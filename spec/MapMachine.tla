----------------------------- MODULE MapMachine -----------------------------
(* A named collection under every history of operations, as an insertion-    *)
(* ordered map.  The state graph is explored completely for a few keys and   *)
(* values; every transition is written out with a shortest history.          *)
EXTENDS CaseData

KeysUsed == <<"a", "b", "c">>
BadKey == "a b"
(* values are tokens here: 1, 2 two items, 3 a reference, 9 not acceptable *)

Ops == [k : {1, 2, 3}, v : {1, 2, 3, 9}, op : {"put"}] \cup [k : {1, 2, 3}, v : {0}, op : {"del", "look"}]
       \cup [k : {0}, v : {1}, op : {"put"}] \cup [k : {0}, v : {0}, op : {"del"}]
VARIABLES m, hist
vars == <<m, hist>>
Where(k) == {i \in DOMAIN m : m[i][1] = k}
Apply(o) ==
  CASE o.op = "put" /\ (o.k = 0 \/ o.v = 9) -> m
    [] o.op = "put" /\ Where(o.k) = {} -> Append(m, <<o.k, o.v>>)
    [] o.op = "put" -> [m EXCEPT ![CHOOSE i \in Where(o.k) : TRUE] = <<o.k, o.v>>]
    [] o.op = "del" /\ Where(o.k) # {} -> RemoveAt(m, CHOOSE i \in Where(o.k) : TRUE)
    [] OTHER -> m
MInit == m = <<>> /\ hist = <<>>
MNext == \E o \in Ops : m' = Apply(o) /\ hist' = Append(hist, o)
View == m
(* the laws of an insertion-ordered map *)
Unique == \A i, j \in DOMAIN m : i # j => m[i][1] # m[j][1]
Order(s) == [i \in DOMAIN s |-> s[i][1]]
Laws == [][LET o == hist'[Len(hist')] IN
  /\ (o.op = "put" /\ Where(o.k) # {} => Order(m') = Order(m))
  /\ (o.op = "put" /\ Where(o.k) = {} /\ o.k # 0 /\ o.v # 9 => Order(m') = Append(Order(m), o.k))
  /\ (o.op = "del" => Order(m') = SelectSeq(Order(m), LAMBDA k : k # o.k))
  /\ (\A k \in {1, 2, 3} \ {o.k} : SelectSeq(m', LAMBDA p : p[1] = k) = SelectSeq(m, LAMBDA p : p[1] = k))]_vars
(* the operations of the object model do the same: on the collection class Messages *)
Item(v) == CASE v = 1 -> Object("Message", <<>>) [] v = 2 -> Object("Message", <<<<"title", S("two")>>>>)
             [] v = 3 -> O(<<<<"$ref", S("#/a")>>>>) [] OTHER -> I(1)
Key(k) == IF k = 0 THEN BadKey ELSE KeysUsed[k]
Typed(s) == [t |-> "M", c |-> "Messages", v |-> TLCEval([i \in 1..Len(s) |-> <<Key(s[i][1]), Parse(Meta["Messages"].of, Item(s[i][2])).v>>])]
Refines == [][LET o == hist'[Len(hist')]
                  r == CASE o.op = "put" -> PutItem(Typed(m), Key(o.k), Item(o.v))
                         [] o.op = "del" -> DelItem(Typed(m), Key(o.k))
                         [] OTHER -> Res("ok", Typed(m))
              IN Same(r.val, Typed(m'))]_vars
(* also: the collection is always what parsing its data gives *)
Valid == Same(ParseObject("Messages", Data(Dump(Typed(m)))).v, Typed(m))
Emit == PrintT("CASE " \o ToJson(hist'))
=============================================================================
