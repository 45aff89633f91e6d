-------------------------------- MODULE Rules --------------------------------
(* The rules that couple several fields, stated a second time as decision    *)
(* tables and automata, and compared with the object model on complete grids *)
(* of field values.  The grids are written out and replayed on the code.     *)
EXTENDS CaseData

Absent == [t |-> "absent", v |-> ""]
Flow(auth, token, refresh) ==
  O((IF refresh THEN <<<<"refreshUrl", S(URL)>>, <<"availableScopes", O(<<<<"write", S("w")>>, <<"read", S("r")>>>>)>>>> ELSE <<<<"availableScopes", O(<<>>)>>>>) \o (IF auth THEN <<<<"authorizationUrl", S(URL)>>>> ELSE <<>>)
                                                          \o (IF token THEN <<<<"tokenUrl", S(URL)>>>> ELSE <<>>))
FlowValues == <<Absent, Flow(FALSE, FALSE, FALSE), Flow(TRUE, FALSE, FALSE), Flow(FALSE, TRUE, FALSE), Flow(TRUE, TRUE, FALSE),
                Flow(FALSE, FALSE, TRUE), Flow(TRUE, FALSE, TRUE), Flow(FALSE, TRUE, TRUE), Flow(TRUE, TRUE, TRUE)>>
Types == <<"userPassword", "apiKey", "X509", "symmetricEncryption", "asymmetricEncryption", "httpApiKey", "http",
           "oauth2", "openIdConnect", "plain", "scramSha256", "scramSha512", "gssapi">>
Exchange(n) == O(<<<<"name", S(Rep("e", n))>>, <<"type", S("topic")>>>>)
Queue(n) == O(<<<<"name", S(Rep("q", n))>>>>)
Strs(seq) == Map(S, seq)
Ints(seq) == Map(I, seq)
A1(seq) == <<Absent>> \o seq
(* class -> sequence of <<field, values>> *)
Grids == [
  SecurityScheme |-> <<
    <<"type", Strs(Types)>>, <<"in", A1(Strs(<<"user", "password", "query", "header", "cookie">>))>>,
    <<"name", <<Absent, S("n"), S("")>>>>, <<"scheme", <<Absent, S("bearer"), S("basic"), S("Bearer"), S("")>>>>, <<"bearerFormat", <<Absent, S("JWT"), S("")>>>>,
    <<"flows", <<Absent, O(<<>>), O(<<<<"password", Flow(FALSE, TRUE, TRUE)>>>>)>>>>, <<"openIdConnectUrl", <<Absent, S(URL)>>>>, <<"scopes", <<Absent, A(<<>>), A(<<S("write"), S("read")>>)>>>>>>,
  OAuthFlows |-> <<<<"implicit", FlowValues>>, <<"password", FlowValues>>, <<"clientCredentials", FlowValues>>, <<"authorizationCode", FlowValues>>>>,
  Channel |-> <<
    <<"address", <<Absent, N>> \o Strs(<<"", "a", "{x}", "a/{x}/b", "{}", "{", "}", "}{", "{x", "x}", "{{x}}", "{}x}", "{}{a}", "a}{b", "a{b}c}", "{ }", "{\n}", "$a", "{a/b}">>)>>,
    <<"parameters", <<Absent, N, O(<<>>), O(<<<<"x", O(<<>>)>>>>), O(<<<<"x", O(<<<<"$ref", S("#/components/parameters/x")>>>>)>>>>), O(<<<<"y", O(<<>>)>>, <<"x", O(<<>>)>>>>)>>>>,
    <<"title", <<Absent, S("t")>>>>, <<"messages", <<Absent, O(<<>>)>>>>>>,
  MessageExample |-> <<
    <<"headers", <<Absent, N, O(<<>>), O(<<<<"a", N>>>>)>>>>, <<"payload", <<Absent, N, O(<<>>), A(<<>>), S(""), I(0), B(FALSE), S("p")>>>>,
    <<"name", <<Absent, S("n")>>>>, <<"summary", <<Absent, S("s")>>>>, <<"x-a", <<Absent, I(1)>>>>>>,
  AMQPChannelBindings |-> <<
    <<"is", A1(Strs(<<"queue", "routingKey", "exchange">>))>>,
    <<"queue", <<Absent, N, O(<<>>), Queue(0), Queue(255), Queue(256)>>>>, <<"exchange", <<Absent, N, O(<<>>), Exchange(0), Exchange(255), Exchange(256)>>>>,
    <<"bindingVersion", <<Absent, S("0.3.0")>>>>>>,
  AMQPOperationBindings |-> <<
    <<"expiration", A1(Ints(<<-100000, -1, 0, 1, 100000>>))>>, <<"priority", A1(Ints(<<-1, 0, 10>>))>>, <<"deliveryMode", A1(Ints(<<0, 1, 2, 3>>))>>,
    <<"timestamp", <<Absent, B(TRUE)>>>>, <<"cc", <<Absent, A(<<>>), A(<<S("b"), S("a")>>)>>>>>>,
  IBMMQServerBindings |-> <<
    <<"heartBeatInterval", A1(Ints(<<-1, 0, 1, 5, 999998, 999999, 1000000>>))>>, <<"groupId", <<Absent, S("g")>>>>, <<"multiEndpointServer", <<Absent, B(TRUE), B(FALSE)>>>>,
    <<"cipherSpec", <<Absent, S("ANY_TLS12")>>>>>>,
  IBMMQChannelBindings |-> <<
    <<"destinationType", A1(Strs(<<"topic", "queue", "exchange">>))>>,
    <<"queue", <<Absent, N, O(<<>>), O(<<<<"objectName", S("q")>>>>), O(<<<<"objectName", S(Rep("q", 48))>>>>), O(<<<<"objectName", S(Rep("q", 49))>>>>)>>>>,
    <<"topic", <<Absent, N, O(<<>>), O(<<<<"objectName", S(Rep("t", 48))>>>>), O(<<<<"objectName", S(Rep("t", 49))>>>>), O(<<<<"string", S("s")>>>>)>>>>,
    <<"maxMsgLength", A1(Ints(<<-1, 0, 104857600, 104857601>>))>>>>,
  IBMMQMessageBindings |-> <<
    <<"type", A1(Strs(<<"string", "jms", "binary">>))>>, <<"headers", <<Absent, N, S(""), S("h")>>>>, <<"expiry", A1(Ints(<<-1, 0, 1>>))>>, <<"description", <<Absent, S("d")>>>>>>,
  KafkaServerBindings |-> <<
    <<"schemaRegistryUrl", <<Absent, N, S(""), S("u")>>>>, <<"schemaRegistryVendor", <<Absent, N, S(""), S("v")>>>>, <<"bindingVersion", <<Absent, S("0.5.0"), S("latest")>>>>>>,
  KafkaChannelBindings |-> <<
    <<"partitions", A1(Ints(<<-1, 0, 1, 2>>))>>, <<"replicas", A1(Ints(<<-1, 0, 1, 2>>))>>, <<"topic", <<Absent, S("t")>>>>, <<"topicConfiguration", <<Absent, O(<<>>)>>>>>>,
  NATSOperationBindings |-> << <<"queue", A1(Map(LAMBDA n : S(Rep("q", n)), <<0, 1, 254, 255, 256, 300>>))>>, <<"bindingVersion", <<Absent, S("0.1.0")>>>> >>,
  SolaceServerBindings |-> << <<"clientName", A1(Map(LAMBDA n : S(Rep("c", n)), <<0, 1, 159, 160, 161, 200>>) \o Map(LAMBDA n : S(Rep("é", n)), <<53, 54, 79, 80, 81, 160>>)
                       \o Map(LAMBDA n : S(Rep("€", n)), <<53, 54, 80, 160>>))>>, <<"msgVpn", <<Absent, S("v")>>>> >>,
  SolaceDestination |-> <<
    <<"destinationType", A1(Strs(<<"queue", "topic">>))>>, <<"queue", <<Absent, N, O(<<>>), O(<<<<"name", S("q")>>>>)>>>>, <<"topic", <<Absent, N, O(<<>>), O(<<<<"topicSubscriptions", A(<<S("b"), S("a")>>)>>>>)>>>>,
    <<"deliveryMode", A1(Strs(<<"direct", "persistent", "other">>))>>>>,
  SolaceOperationBindings |-> <<
    <<"priority", A1(Ints(<<-1, 0, 1, 254, 255, 256>>) \o <<O(<<>>), O(<<<<"$ref", S("#/a")>>>>), S("zzz")>>)>>, <<"timeToLive", A1(Ints(<<-1, 0, 300>>) \o <<O(<<>>)>>)>>,
    <<"dmqEligible", <<Absent, B(TRUE)>>>>>>,
  AMQPQueue |-> << <<"name", A1(Map(LAMBDA n : S(Rep("q", n)), <<0, 1, 254, 255, 256, 300>>))>>, <<"durable", <<Absent, B(TRUE)>>>>, <<"vhost", <<Absent, S("/")>>>> >>,
  AMQPExchange |-> <<
    <<"name", A1(Map(LAMBDA n : S(Rep("e", n)), <<0, 1, 254, 255, 256, 300>>))>>, <<"type", A1(Strs(<<"topic", "direct", "fanout", "default", "headers", "x">>))>>, <<"durable", <<Absent, B(TRUE)>>>>>>,
  IBMMQQueue |-> << <<"objectName", A1(Map(LAMBDA n : S(Rep("q", n)), <<0, 1, 47, 48, 49, 60>>))>>, <<"exclusive", <<Absent, B(TRUE)>>>>, <<"isPartitioned", <<Absent, B(TRUE)>>>> >>,
  IBMMQTopic |-> <<
    <<"objectName", A1(Map(LAMBDA n : S(Rep("t", n)), <<0, 47, 48, 49>>))>>, <<"string", A1(Map(LAMBDA n : S(Rep("s", n)), <<0, 1, 49, 300>>))>>, <<"durablePermitted", <<Absent, B(FALSE)>>>>>>
]
GridClasses == DOMAIN Grids

(* ---- the second formulation: given is a function from field names to values ---- *)
Has1(g, n) == n \in DOMAIN g /\ g[n].t # "absent" /\ g[n].t # "n"
Val(g, n) == IF Has1(g, n) THEN g[n].v ELSE ""
(* what each type needs and which values of "in" it allows (empty: anything) *)
Row == [apiKey |-> [needs |-> {"in"}, in |-> {"user", "password"}], httpApiKey |-> [needs |-> {"name", "in"}, in |-> {"query", "header", "cookie"}],
        http |-> [needs |-> {"scheme"}, in |-> {}], oauth2 |-> [needs |-> {"flows"}, in |-> {}], openIdConnect |-> [needs |-> {"openIdConnectUrl"}, in |-> {}]]
SchemeOk(g) ==
  LET t == Val(g, "type")
      row == IF t \in DOMAIN Row THEN Row[t] ELSE [needs |-> {}, in |-> {}]
  IN /\ t \in {Types[i] : i \in DOMAIN Types}
     /\ \A n \in row.needs : Has1(g, n)
     /\ row.in = {} \/ Val(g, "in") \in row.in
     /\ ~Has1(g, "bearerFormat") \/ <<t, Val(g, "scheme")>> = <<"http", "bearer">>
     /\ ~Has1(g, "scopes") \/ t = "oauth2" \/ t = "openIdConnect"
FlowNeeds == [implicit |-> {"authorizationUrl"}, password |-> {"tokenUrl"}, clientCredentials |-> {"tokenUrl"}, authorizationCode |-> {"authorizationUrl", "tokenUrl"}]
FlowsOk(g) == \A f \in DOMAIN g : Has1(g, f) => FlowNeeds[f] \subseteq Keys(g[f].v)
(* an automaton for addresses: 0 outside, 1 just after "{", 2 inside with content, 3 found *)
RECURSIVE Scan(_, _)
Scan(s, q) == IF q = 3 \/ Len(s) = 0 THEN q
              ELSE LET c == Ch(s, 1) IN
                   Scan(Drop(s, 1), CASE q = 0 -> IF c = "{" THEN 1 ELSE 0
                                      [] q = 1 -> IF c = "}" THEN 0 ELSE 2
                                      [] q = 2 -> IF c = "}" THEN 3 ELSE 2)
ChannelOk(g) == Has1(g, "parameters") => (Has1(g, "address") /\ Scan(g["address"].v, 0) = 3)
ExampleOk(g) == Has1(g, "headers") \/ Has1(g, "payload")
LenIn(g, n, lo, hi) == Has1(g, n) => Len(g[n].v) \in lo..hi
In(g, n, lo, hi) == (Has1(g, n) /\ g[n].t = "i") => g[n].v >= lo /\ g[n].v <= hi
Huge == 2000000000
NameFits(g, n, key, max) == \* the name inside an object
  Has1(g, n) => \A i \in DOMAIN g[n].v : g[n].v[i][1] = key => Len(g[n].v[i][2].v) <= max
HasInside(g, n, key) == Has1(g, n) => key \in Keys(g[n].v)
OneOf(g, on, when, a, b) == IF Val(g, on) = when THEN Has1(g, a) /\ ~Has1(g, b) ELSE Has1(g, b) /\ ~Has1(g, a)
Allowed1(g, n, set) == Has1(g, n) => Val(g, n) \in set
Decide(c, g) ==
  CASE c = "SecurityScheme" -> SchemeOk(g)
    [] c = "OAuthFlows" -> FlowsOk(g)
    [] c = "Channel" -> ChannelOk(g)
    [] c = "MessageExample" -> ExampleOk(g)
    [] c = "AMQPChannelBindings" ->
         /\ Has1(g, "is") /\ Val(g, "is") # "exchange" /\ OneOf(g, "is", "routingKey", "exchange", "queue")
         /\ NameFits(g, "queue", "name", 255) /\ NameFits(g, "exchange", "name", 255) /\ HasInside(g, "exchange", "name") /\ HasInside(g, "exchange", "type")
    [] c = "AMQPOperationBindings" -> In(g, "expiration", 0, Huge) /\ (Has1(g, "deliveryMode") => g["deliveryMode"].v \in {1, 2})
    [] c = "IBMMQServerBindings" -> In(g, "heartBeatInterval", 0, 999999)
    [] c = "IBMMQChannelBindings" ->
         /\ Allowed1(g, "destinationType", {"topic", "queue"}) /\ ~(Has1(g, "queue") /\ Has1(g, "topic"))
         /\ (Val(g, "destinationType") = "queue" => Has1(g, "queue"))
         /\ HasInside(g, "queue", "objectName") /\ NameFits(g, "queue", "objectName", 48) /\ NameFits(g, "topic", "objectName", 48)
         /\ In(g, "maxMsgLength", 0, 104857600)
    [] c = "IBMMQMessageBindings" -> In(g, "expiry", 0, Huge) /\ (Has1(g, "headers") => Val(g, "type") = "binary")
    [] c = "KafkaServerBindings" -> Has1(g, "schemaRegistryVendor") => Has1(g, "schemaRegistryUrl")
    [] c = "KafkaChannelBindings" -> In(g, "partitions", 1, Huge) /\ In(g, "replicas", 1, Huge)
    [] c = "NATSOperationBindings" -> LenIn(g, "queue", 0, 255)
    [] c = "SolaceServerBindings" -> (Has1(g, "clientName") => LET s == g["clientName"].v
                                                                IN Len(s) * (IF Has(s, "€") THEN 3 ELSE IF Has(s, "é") THEN 2 ELSE 1) <= 160)
    [] c = "SolaceDestination" -> Has1(g, "destinationType") /\ OneOf(g, "destinationType", "queue", "queue", "topic") /\ Allowed1(g, "deliveryMode", {"direct", "persistent"})
    [] c = "SolaceOperationBindings" -> In(g, "priority", 0, 255) /\ (Has1(g, "priority") => g["priority"].t # "s")
    [] c = "AMQPQueue" -> LenIn(g, "name", 0, 255)
    [] c = "AMQPExchange" -> Has1(g, "name") /\ LenIn(g, "name", 0, 255) /\ Has1(g, "type") /\ Val(g, "type") # "x"
    [] c = "IBMMQQueue" -> Has1(g, "objectName") /\ LenIn(g, "objectName", 0, 48)
    [] c = "IBMMQTopic" -> LenIn(g, "objectName", 0, 48) /\ LenIn(g, "string", 0, 10240)

(* ---- checking: one grid point per state ---- *)
VARIABLE p      \* <<class, one index per field>>
Dims(c) == [i \in DOMAIN Grids[c] |-> Len(Grids[c][i][2])]
RInit == \E c \in GridClasses : p = <<c, <<>>>>
RNext == LET c == p[1]
             k == Len(p[2]) + 1
         IN k <= Len(Grids[c]) /\ \E i \in 1..Len(Grids[c][k][2]) : p' = <<c, Append(p[2], i)>>
Full == Len(p[2]) = Len(Grids[p[1]])
Chosen(i) == Grids[p[1]][i][2][p[2][i]]
PointData == LET used == SelectSeq(Ixs(p[2]), LAMBDA i : Chosen(i).t # "absent")
             IN O(Map(LAMBDA i : <<Grids[p[1]][i][1], Chosen(i)>>, used))
Given == [n \in {Grids[p[1]][i][1] : i \in DOMAIN p[2]} |-> Chosen(CHOOSE i \in DOMAIN p[2] : Grids[p[1]][i][1] = n)]
TablesAgree == Full => ParseObject(p[1], PointData).ok = Decide(p[1], Given)
Stop == p[1] = "never"
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, [grids |-> Grids])
=============================================================================
