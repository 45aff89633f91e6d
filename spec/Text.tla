-------------------------------- MODULE Text --------------------------------
(* Predicates on strings, character by character.                            *)
EXTENDS Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)
CharsIn(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Has(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
At(s, c) == {i \in 1..Len(s) : Ch(s, i) = c}

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Letter == Lower \cup Upper
Word == Letter \cup Digit \cup {"_"}

(* keys of named collections *)
KeyChar == Word \cup {"-"}
IsKey(s) == Len(s) > 0 /\ CharsIn(s, KeyChar)

(* names of specification extensions *)
(* letters and digits of other scripts are word characters as well; those    *)
(* listed here are tried                                                     *)
WordLike == {"é","ß","Ñ","ø","Ž","λ","Ω","я","Ж","ё","א","ع","क","あ","ア","中","文","한","٣","५","５","Ａ","ª"}
ExtChar == Word \cup WordLike \cup {".", "-"}
IsExtension(s) == Len(s) > 2 /\ HasPrefix(s, "x-") /\ CharsIn(Drop(s, 2), ExtChar)

(* e-mail: local part @ domain . top level domain, no two dots in a row *)
LocalChar == Letter \cup Digit \cup {".", "_", "%", "+", "-"}
DomainChar == Letter \cup Digit \cup {".", "-"}
IsEmail(s) ==
  /\ \A i \in 1..Len(s) - 1 : ~(Ch(s, i) = "." /\ Ch(s, i + 1) = ".")
  /\ \E a \in At(s, "@") : At(s, "@") = {a} /\
       LET local == SubSeq(s, 1, a - 1)
           domain == Drop(s, a)
           dots == At(domain, ".")
       IN /\ Len(local) > 0 /\ CharsIn(local, LocalChar)
          /\ dots # {}
          /\ LET d == CHOOSE x \in dots : \A y \in dots : y <= x
             IN /\ d > 1 /\ CharsIn(SubSeq(domain, 1, d - 1), DomainChar)
                /\ Len(domain) - d >= 2 /\ CharsIn(Drop(domain, d), Letter)

(* e-mail addresses about which the sources disagree: a local part that      *)
(* begins or ends with a dot, a domain label that begins or ends with "-" or *)
(* is empty                                                                  *)
OddEmail(s) == \E a \in At(s, "@") :
  LET l == SubSeq(s, 1, a - 1)
      d == Drop(s, a)
      edge(t, i) == i = 1 \/ i = Len(t) \/ Ch(t, i - 1) = "." \/ Ch(t, i + 1) = "."
  IN \/ \E i \in At(l, ".") : i = 1 \/ i = Len(l)
     \/ \E i \in At(d, "-") : edge(d, i)
     \/ \E i \in At(d, ".") : i = 1 \/ i = Len(d)

(* semantic version of major version 3, with an optional suffix *)
IsNumber(s) == Len(s) > 0 /\ CharsIn(s, Digit)
IsVersion3(s) ==
  LET dots == At(s, ".") IN
  \E d1 \in dots : (\A x \in dots : d1 <= x) /\
  \E d2 \in dots : d2 > d1 /\ (\A x \in dots : x <= d1 \/ d2 <= x) /\
    /\ SubSeq(s, 1, d1 - 1) = "3"
    /\ IsNumber(SubSeq(s, d1 + 1, d2 - 1))
    /\ LET rest == Drop(s, d2)
           dash == At(rest, "-")
       IN \/ IsNumber(rest)
          \/ \E h \in dash : /\ \A x \in dash : h <= x
                             /\ IsNumber(SubSeq(rest, 1, h - 1))
                             /\ Len(rest) > h
                             /\ CharsIn(Drop(rest, h), ExtChar)

(* versions with leading zeros, about which the sources disagree *)
OddVersion(s) == \E i \in At(s, "0") : (i = 1 \/ Ch(s, i - 1) \notin Digit) /\ i < Len(s) /\ Ch(s, i + 1) \in Digit

(* runtime expression *)
IsRuntimeExpression(s) == HasPrefix(s, "$message.")

(* address with at least one {expression} with a non-empty name *)
HasExpression(s) ==
  \E i \in At(s, "{") : \E j \in At(s, "}") :
     j > i + 1 /\ ~Has(SubSeq(s, i + 1, j - 1), "}")

(* absolute URLs *)
Scheme(s) == IF At(s, ":") = {} THEN ""
             ELSE SubSeq(s, 1, (CHOOSE x \in At(s, ":") : \A y \in At(s, ":") : x <= y) - 1)
Hierarchical == {"http", "https", "ftp", "ws", "wss"}
IsUrl(s) == LET c == Scheme(s) IN
  /\ Len(c) > 0 /\ Ch(c, 1) \in Letter /\ CharsIn(c, Letter \cup Digit \cup {"+", "-", "."})
  /\ ~Has(s, " ")
  /\ IF c \in Hierarchical
     THEN HasPrefix(Drop(s, Len(c)), "://") /\ Len(s) > Len(c) + 3 /\ Ch(s, Len(c) + 4) # "/"
     ELSE Len(s) > Len(c) + 1
IsHttpUrl(s) == Scheme(s) \in {"http", "https"} /\ IsUrl(s)

(* at most n bytes in UTF-8; of longer characters those of the table occur *)
TwoBytes == {"é", "ü", "ñ", "к"}
ThreeBytes == {"€", "中", "　"}
RECURSIVE BytesFrom(_, _)
BytesFrom(s, i) == IF i > Len(s) THEN 0
  ELSE (IF Ch(s, i) \in TwoBytes THEN 2 ELSE IF Ch(s, i) \in ThreeBytes THEN 3 ELSE 1) + BytesFrom(s, i + 1)
FitsBytes(s, n) == 3 * Len(s) <= n \/ (Len(s) <= n /\ BytesFrom(s, 1) <= n)

(* "a/b//c" -> <<"a", "b", "", "c">> *)
RECURSIVE Split(_, _)
Split(s, c) == LET d == At(s, c) IN
  IF d = {} THEN <<s>>
  ELSE LET i == CHOOSE x \in d : \A y \in d : x <= y
       IN <<SubSeq(s, 1, i - 1)>> \o Split(Drop(s, i), c)
=============================================================================
