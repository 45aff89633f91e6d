----------------------------- MODULE Processors -----------------------------
(* Documents that carry converters and validators of the user, and the       *)
(* builder.  A processor is named "<what it does>-<x>":                      *)
(*   Log nothing;  Title appends x to the title of the document in place;    *)
(*   Chan puts a channel x;  Drop deletes the channel x;  Fail fails;        *)
(*   Veto fails if the title ends in x;  Need fails unless channel x exists; *)
(*   Bad makes a nested assignment that is rejected, and fails by it.        *)
(*   Make builds another document with its own processor Log-x and assigns   *)
(*   to it;  Nest builds another document with a dangling reference and the  *)
(*   unified validator, and fails unless that is refused.                    *)
(* Each writes itself and the document it saw into a log.  "Unified", "Tags" *)
(* and "Docs" are the reference validators, which write nothing; the other    *)
(* validators of the package (by their names) accept every document.         *)
EXTENDS Objects

ShippedKinds == <<"ChannelBindingsRefValidator", "ChannelsRefValidator", "CorrelationIdsRefValidator", "MessageBindingsRefValidator", "MessageTraitsRefValidator",
                  "MessagesRefValidator", "OperationBindingsRefValidator", "OperationTraitsRefValidator", "OperationsRefValidator", "ParametersRefValidator",
                  "RepliesRefValidator", "ReplyAddressesRefValidator", "SchemasRefValidator", "SecuritySchemesRefValidator", "ServerBindingsRefValidator",
                  "ServerVariablesRefValidator", "ServersRefValidator">>
Shipped == {ShippedKinds[i] : i \in DOMAIN ShippedKinds} \cup {"Unified", "Tags", "Docs"}
Own(p) == p \notin Shipped
What(p) == Split(p, "-")[1]
Arg(p) == Drop(p, Len(What(p)) + 1)
TitlePath == <<"info", "title">>
Title(doc) == PartAt(doc, TitlePath).v
EndsIn(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
HasChannels(doc) == PartAt(doc, <<"channels">>).t = "M"
ChannelAt(doc, x) == HasChannels(doc) /\ Index(PartAt(doc, <<"channels">>).v, x) # 0

(* one processor on a document: the outcome and the document afterwards *)
Apply(p, doc) ==
  IF ~Own(p) THEN Res(Verdict(p, doc), doc)
  ELSE LET x == Arg(p) IN
    CASE What(p) = "Title" -> Res("ok", Replace(doc, TitlePath, S(Title(doc) \o x)))
      [] What(p) = "Chan" -> Res("ok", IF HasChannels(doc) THEN OnPart(doc, <<"channels">>, LAMBDA m : PutItem(m, x, O(<<>>))).val ELSE doc)
      [] What(p) = "Drop" -> Res("ok", IF ChannelAt(doc, x) THEN OnPart(doc, <<"channels">>, LAMBDA m : DelItem(m, x)).val ELSE doc)
      [] What(p) = "Fail" -> Res("rej", doc)
      [] What(p) = "Bad" -> Res("rej", doc)
      [] What(p) = "Veto" -> Res(IF EndsIn(Title(doc), x) THEN "rej" ELSE "ok", doc)
      [] What(p) = "Need" -> Res(IF ChannelAt(doc, x) THEN "ok" ELSE "rej", doc)
      [] OTHER -> Res("ok", doc)

(* what the processors of the document built by Make write *)
Inner(x) == LET d == ParseObject("AsyncAPI3", O(<<<<"info", O(<<<<"title", S(x)>>, <<"version", S("1")>>>>)>>>>)).v
                seen(v) == [p |-> "Log-" \o x, val |-> v, me |-> FALSE]
            IN <<seen(d), seen(Assigned(d, "id", S("urn:in:" \o x)).v)>>

(* a list of processors, stopping at the first failure *)
Ran(r, doc, log) == [r |-> r, val |-> doc, log |-> log]
RECURSIVE RunAll(_, _, _)
RunAll(list, doc, log) ==
  IF Len(list) = 0 THEN Ran("ok", doc, log)
  ELSE LET p == list[1]
           l1 == IF Own(p) THEN Append(log, [p |-> p, val |-> doc, me |-> TRUE]) ELSE log
           l2 == IF Own(p) /\ What(p) = "Make" THEN l1 \o Inner(Arg(p)) ELSE l1
           a == TLCEval(Apply(p, doc))
       IN IF a.r # "ok" THEN Ran(a.r, a.val, l2) ELSE RunAll(Tail(list), a.val, l2)
Process(doc, convs, vals) == RunAll(convs \o vals, doc, <<>>)

(* ---- operations on documents ---- *)
PConstruct(data, convs, vals) ==
  LET p == ParseObject("AsyncAPI3", data) IN
  IF ~p.ok THEN Ran("rej", N, <<>>) ELSE Process(p.v, convs, vals)
PAssign(doc, name, data, convs, vals) ==
  LET p == Assigned(doc, name, data) IN
  IF ~p.ok THEN Ran("rej", doc, <<>>) ELSE Process(p.v, convs, vals)

(* ---- the builder ---- *)
Given(args, n) == \E i \in DOMAIN args : args[i][1] = n
InfoNames == <<"title", "version", "description", "terms_of_service", "contact", "license", "tags", "external_docs">>
InfoData(args) ==
  LET def == <<<<"title", S("Sample APP")>>, <<"version", S("0.0.1")>>>>
  IN O(SelectSeq(def, LAMBDA p : ~Given(args, p[1])) \o args)
Nothing == O(<<>>)
ComponentNames == [i \in DOMAIN Meta["Components"].f |-> Meta["Components"].f[i].w]
EmptyComponents == O([i \in DOMAIN ComponentNames |-> <<ComponentNames[i], Nothing>>])
ASSUME Len(ComponentNames) = 19
BuilderData(args, kw) ==
  LET def == <<<<"info", InfoData(args)>>, <<"servers", Nothing>>, <<"channels", Nothing>>, <<"operations", Nothing>>, <<"components", EmptyComponents>>>>
  IN O(SelectSeq(def, LAMBDA p : ~Given(kw, p[1])) \o kw)
(* args: what is said about the document; kw: fields of the document overridden;   *)
(* convs, vals: processors given, <<"default">> where none are                     *)
Build(args, kw, convs, vals) ==
  LET c == IF convs = <<"default">> THEN <<>> ELSE convs
      v == IF vals = <<"default">> THEN <<"Unified">> ELSE vals
      r == IF ParseObject("Info", InfoData(args)).ok THEN PConstruct(BuilderData(args, kw), c, v) ELSE Ran("rej", N, <<>>)
  IN [r |-> r.r, val |-> r.val, log |-> r.log, convs |-> c, vals |-> v]
=============================================================================
