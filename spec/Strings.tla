------------------------------- MODULE Strings -------------------------------
(* The formatted strings a second time, as automata that read one character  *)
(* at a time, compared with the predicates of Text on every string of up to  *)
(* MaxLen tokens.  The token alphabets are written out: the same strings are *)
(* then offered to the real code.                                            *)
EXTENDS Text, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANT MaxLen
Kinds == {"email", "semver", "rtexpr", "key", "ext", "address"}
Tokens == [
  email   |-> <<"a", "Z", ".", "@", "-", "co", "0", " ", "\n">>,
  semver  |-> <<"3", "0", "12", ".", "-", "a", "\n">>,
  rtexpr  |-> <<"$", "message", "$message", ".", "header", "#/", "a", " ", "\n">>,
  key     |-> <<"a", "Z", "5", "-", "_", " ", "\n", ".">>,
  ext     |-> <<"x", "-", "x-", "X", "a", ".", "_", "0", " ", "\n", "/">>,
  address |-> <<"{", "}", "a", "/", "\n">>]
Predicate(k, s) ==
  CASE k = "email" -> IsEmail(s) [] k = "semver" -> IsVersion3(s) [] k = "rtexpr" -> IsRuntimeExpression(s)
    [] k = "key" -> IsKey(s) [] k = "ext" -> IsExtension(s) [] k = "address" -> HasExpression(s)

(* ---- automata: a start state, a step, and which states accept ---- *)
Start == [email |-> <<"l0">>, semver |-> <<"start">>, rtexpr |-> <<"p", 0>>, key |-> <<"empty">>, ext |-> <<"0">>, address |-> <<"out">>]
Dead == <<"dead">>
(* e-mail: <<"l0">> nothing yet, <<"l">> in the local part, <<"ldot">> just after a dot there;
   <<"d", any, run>>: in the domain, any: a character before the last dot, run: what follows that dot
   ("none" when there was no dot yet, "" just after it, "1" one letter, "2" more letters, "x" something else) *)
StepEmail(q, c) ==
  CASE q[1] \in {"l0", "l", "ldot"} ->
         IF c = "@" THEN (IF q[1] = "l0" THEN Dead ELSE <<"d", FALSE, "start">>)
         ELSE IF c = "." THEN (IF q[1] = "ldot" THEN Dead ELSE <<"ldot">>)
         ELSE IF c \in LocalChar THEN <<"l">> ELSE Dead
    [] q[1] = "d" ->
         IF c = "." THEN (IF q[3] = "" THEN Dead ELSE <<"d", q[2] \/ q[3] # "start", "">>)
         ELSE IF c \notin DomainChar THEN Dead
         ELSE IF q[3] \in {"start", "none"} THEN <<"d", FALSE, "none">>
         ELSE IF c \notin Letter THEN <<"d", TRUE, "x">>
         ELSE IF q[3] = "" THEN <<"d", q[2], "1">>
         ELSE IF q[3] \in {"1", "2"} THEN <<"d", q[2], "2">>
         ELSE q
    [] OTHER -> Dead
StepSemver(q, c) ==
  CASE q[1] = "start" -> IF c = "3" THEN <<"major">> ELSE Dead
    [] q[1] = "major" -> IF c = "." THEN <<"minor0">> ELSE Dead
    [] q[1] = "minor0" -> IF c \in Digit THEN <<"minor">> ELSE Dead
    [] q[1] = "minor" -> IF c \in Digit THEN q ELSE IF c = "." THEN <<"patch0">> ELSE Dead
    [] q[1] = "patch0" -> IF c \in Digit THEN <<"patch">> ELSE Dead
    [] q[1] = "patch" -> IF c \in Digit THEN q ELSE IF c = "-" THEN <<"suffix0">> ELSE Dead
    [] q[1] \in {"suffix0", "suffix"} -> IF c \in ExtChar THEN <<"suffix">> ELSE Dead
    [] OTHER -> Dead
Prefix == "$message."
StepRt(q, c) == IF q = Dead THEN q ELSE IF q[2] = Len(Prefix) THEN q ELSE IF c = Ch(Prefix, q[2] + 1) THEN <<"p", q[2] + 1>> ELSE Dead
StepKey(q, c) == IF q # Dead /\ c \in KeyChar THEN <<"some">> ELSE Dead
StepExt(q, c) ==
  CASE q[1] = "0" -> IF c = "x" THEN <<"x">> ELSE Dead
    [] q[1] = "x" -> IF c = "-" THEN <<"x-">> ELSE Dead
    [] q[1] \in {"x-", "more"} -> IF c \in ExtChar THEN <<"more">> ELSE Dead
    [] OTHER -> Dead
StepAddr(q, c) ==
  CASE q[1] = "out" -> IF c = "{" THEN <<"open">> ELSE q
    [] q[1] = "open" -> IF c = "}" THEN <<"out">> ELSE <<"name">>
    [] q[1] = "name" -> IF c = "}" THEN <<"found">> ELSE q
    [] OTHER -> q
StepBy(k, q, c) ==
  CASE k = "email" -> StepEmail(q, c) [] k = "semver" -> StepSemver(q, c) [] k = "rtexpr" -> StepRt(q, c)
    [] k = "key" -> StepKey(q, c) [] k = "ext" -> StepExt(q, c) [] k = "address" -> StepAddr(q, c)
Accepting(k, q) ==
  CASE k = "email" -> q[1] = "d" /\ q[2] /\ q[3] = "2"
    [] k = "semver" -> q[1] \in {"patch", "suffix"}
    [] k = "rtexpr" -> q = <<"p", Len(Prefix)>>
    [] k = "key" -> q[1] = "some"
    [] k = "ext" -> q[1] = "more"
    [] k = "address" -> q[1] = "found"
RECURSIVE Run(_, _, _)
Run(k, q, t) == IF Len(t) = 0 THEN q ELSE Run(k, StepBy(k, q, Ch(t, 1)), Drop(t, 1))

VARIABLES k, s, q, n
Init == k \in Kinds /\ s = "" /\ q = Start[k] /\ n = 0
Next == /\ n < MaxLen
        /\ \E i \in DOMAIN Tokens[k] : s' = s \o Tokens[k][i] /\ q' = Run(k, q, Tokens[k][i])
        /\ n' = n + 1 /\ UNCHANGED k
View == <<k, s>>
Agree == Accepting(k, q) <=> Predicate(k, s)
Stop == n < 0
ASSUME (IOEnv.OUT # "") => JsonSerialize(IOEnv.OUT, [tokens |-> Tokens])
=============================================================================
