---- MODULE MC_Escaping ----
(* For every text over the alphabet: the text put into an element, a title,   *)
(* an attribute (and with its high characters spelled as references) is read  *)
(* back as the same characters, with no other token than those of the page.   *)
EXTENDS Escaping, Json, IOUtils
CONSTANTS Alphabet, MaxLen, OutLen
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_s
P == <<112>>
A == <<97>>
In(tag, body) == <<60>> \o tag \o <<62>> \o body \o <<60, 47>> \o tag \o <<62>>
T(body) == IF body = <<>> THEN <<>> ELSE << <<"t", body>> >>
Tokens(tag, body) == << <<"<", tag, <<>> >> >> \o T(body) \o << <<"/", tag>> >>
Element == Read(In(P, Text(s))) = Tokens(P, s)
Titled == Read(In(TitleName, Text(s))) = Tokens(TitleName, s)
Attribute == Read(<<60, 112, 32, 97, 61, 34>> \o Attr(s) \o <<34, 62>>) = << <<"<", P, << <<A, s>> >> >> >>
HighElement == Read(High(In(P, Text(s)))) = Tokens(P, s)
HighAscii == \A i \in DOMAIN High(In(P, Text(s))) : High(In(P, Text(s)))[i] < 128
HighAttribute == Read(High(<<60, 112, 32, 97, 61, 34>> \o Attr(s) \o <<34, 62>>)) = << <<"<", P, << <<A, s>> >> >> >>
(* a piece between its marks is recognised, and only if it is right *)
Marked == LET d == Text(OpenMark(7) \o s \o CloseMark(7)) IN
          /\ Canon(In(P, d), [i \in 1..8 |-> s]) = << <<"<", P, <<>> >>, <<"t", <<Piece(7)>> >>, <<"/", P>> >>
          /\ Canon(In(P, d), [i \in 1..8 |-> Append(s, 60)])[2] # <<"t", <<Piece(7)>> >>
(* left unescaped, some text is markup: the reader tells *)
Strings == UNION {[1..n -> Alphabet] : n \in 1..OutLen}
ASSUME Read(In(P, ScriptTag)) # Tokens(P, ScriptTag)
ASSUME ~\E x \in Strings : Read(In(P, Text(x))) # Tokens(P, x)
ASSUME \E x \in Strings : Read(In(P, x)) # Tokens(P, x)
ASSUME IF "OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT, [strings |-> SetToSeq(Strings)]) ELSE TRUE
====
