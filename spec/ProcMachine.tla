----------------------------- MODULE ProcMachine -----------------------------
(* Histories of a document with processors: constructed with some lists of   *)
(* converters and validators, assigned to, its lists replaced, changed in    *)
(* place.  The laws of running processors are stated on the log alone.       *)
EXTENDS Processors, Json, IOUtils

CONSTANTS Steps, Lists
Some == <<<<>>, <<"Log-a">>, <<"Title-x">>, <<"Title-x", "Title-y">>, <<"Chan-c", "Log-b">>, <<"Fail-f">>, <<"Title-y", "Fail-f", "Log-a">>,
          <<"Veto-x">>, <<"Need-c", "Log-d">>, <<"Log-a", "Log-a">>, <<"Drop-c", "Title-x">>, <<"Bad-b", "Title-y">>, <<"Title-x", "Veto-x", "Log-b">>,
          <<"Log-a", "Unified", "Log-b">>, <<"Unified">>, <<"Log-a", "Log-b", "Title-x", "Need-c">>,
          <<"Title-x", "Make-i", "Veto-xx", "Log-b">>, <<"Nest-n", "Title-y">>, <<"Make-i", "Nest-n", "Make-j">>>>
Few == SubSeq(Some, 1, 8)
Info(t) == O(<<<<"title", S(t)>>, <<"version", S("1")>>>>)
Datas == <<O(<<<<"info", Info("t")>>>>), O(<<<<"info", Info("tx")>>, <<"channels", O(<<>>)>>>>), O(<<<<"info", I(1)>>>>), O(<<<<"info", Info("t")>>, <<"zzz", I(1)>>>>),
           O(<<<<"info", Info("t")>>, <<"x-a", N>>, <<"channels", O(<<<<"c", O(<<<<"servers", A(<<O(<<<<"$ref", S("#/servers/s")>>>>)>>)>>>>)>>>>)>>>>)>>
R(s) == O(<<<<"$ref", S(s)>>>>)
(* name, value *)
Sets == <<<<"id", S("urn:x:y")>>, <<"info", Info("u")>>, <<"info", Info("ux")>>, <<"info", N>>, <<"channels", O(<<>>)>>, <<"channels", N>>, <<"x-b", I(1)>>, <<"zzz", I(1)>>,
          <<"asyncapi", S("2.0.0")>>, <<"servers", O(<<<<"s", R("#/nowhere")>>>>)>>>>
NestedTitle == S("nested")

VARIABLES doc, convs, vals, hist, log, r
vars == <<doc, convs, vals, hist, log, r>>
None == [t |-> "none"]
Init == doc = None /\ convs = <<>> /\ vals = <<>> /\ hist = <<>> /\ log = <<>> /\ r = "ok"
Did(x, c, v, op) == /\ r' = x.r /\ log' = x.log /\ hist' = Append(hist, op)
                    /\ doc' = (IF x.r = "ok" THEN x.val ELSE doc)
                    /\ convs' = (IF x.r = "ok" THEN c ELSE convs)
                    /\ vals' = (IF x.r = "ok" THEN v ELSE vals)
(* a document whose processors changed it before one refused is left alone afterwards *)
Clean == r = "ok" \/ (log = <<>>) \/ \A i \in DOMAIN log : What(log[i].p) \notin {"Title", "Chan", "Drop"}
New == /\ doc.t = "none" /\ hist = <<>>
       /\ \E i, j \in DOMAIN Lists, k \in DOMAIN Datas :
            Did(PConstruct(Datas[k], Lists[i], Lists[j]), Lists[i], Lists[j], <<"new", k, Lists[i], Lists[j]>>)
Set == \E k \in DOMAIN Sets : Did(PAssign(doc, Sets[k][1], Sets[k][2], convs, vals), convs, vals, <<"set", k>>)
Lists1 == \E i \in DOMAIN Lists :
   \/ Did(Process(doc, Lists[i], vals), Lists[i], vals, <<"convs", i>>)
   \/ Did(Process(doc, convs, Lists[i]), convs, Lists[i], <<"vals", i>>)
Again == Did(Process(doc, convs, vals), convs, vals, <<"again">>)          \* validated once more as an instance
Nested == Did(Ran("ok", Replace(doc, TitlePath, NestedTitle), <<>>), convs, vals, <<"nested">>)
Next == New \/ (doc.t # "none" /\ Clean /\ Len(hist) < Steps /\ (Set \/ Lists1 \/ Again \/ Nested))
View == <<doc, convs, vals, log, r, Len(hist)>>

(* ---- laws ---- *)
Names(l) == [i \in DOMAIN l |-> l[i].p]
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Used == LET h == hist[Len(hist)]
            c == CASE h[1] = "new" -> h[3] [] h[1] = "convs" -> Lists[h[2]] [] OTHER -> convs
            v == CASE h[1] = "new" -> h[4] [] h[1] = "vals" -> Lists[h[2]] [] OTHER -> vals
        IN c \o v
RECURSIVE Written(_)
Written(l) == IF l = <<>> THEN <<>> ELSE (IF What(l[1]) = "Make" THEN <<l[1], "Log-" \o Arg(l[1]), "Log-" \o Arg(l[1])>> ELSE <<l[1]>>) \o Written(Tail(l))
Logged(l) == Written(SelectSeq(l, Own))
Outer(l) == SelectSeq(l, LAMBDA e : e.me)
(* each once and in order; all of them when accepted; none but the last may fail *)
InOrder == hist # <<>> /\ hist[Len(hist)][1] # "nested" =>
   /\ Prefix(Names(log), Logged(Used))
   /\ (r = "ok" => Names(log) = Logged(Used))
   /\ \A i \in DOMAIN log : i < Len(log) => Apply(log[i].p, log[i].val).r = "ok"
   /\ (r = "ok" /\ log # <<>>) => Apply(log[Len(log)].p, log[Len(log)].val).r = "ok"
(* every processor sees what the ones before it did, and nothing else *)
Visible == LET o == Outer(log) IN \A i \in DOMAIN o : i < Len(o) =>
   LET p == o[i].p IN Same(o[i + 1].val, Apply(p, o[i].val).val)
(* nothing runs when the data itself is refused *)
Basic == (hist # <<>> /\ hist[1][1] = "new" /\ Len(hist) = 1 /\ hist[1][2] \in {3, 4}) => log = <<>> /\ r = "rej"
(* what came out is what the last one left behind *)
Result == LET o == Outer(log) IN (r = "ok" /\ o # <<>> /\ Own(Used[Len(Used)])) => Same(doc, Apply(o[Len(o)].p, o[Len(o)].val).val)
Emit == IF Len(hist') = Steps \/ r' # "ok" THEN PrintT("CASE " \o ToJson(hist')) ELSE TRUE
Stop == r = "never"
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, [datas |-> Datas, sets |-> Sets, lists |-> Lists])
=============================================================================
