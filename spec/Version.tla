------------------------------- MODULE Version ------------------------------
(* Versions as text (C15): a version is a pair of numbers written in decimal  *)
(* digits without leading zeros (TLC's own integers stop at 2^31-1, a version *)
(* number at 2^32-1).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DigitOf == [d \in {"0","1","2","3","4","5","6","7","8","9"} |->
              CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
At(t, i) == SubSeq(t, i, i)
IsDigit(c) == c \in DOMAIN DigitOf
Largest == "4294967295"

RECURSIVE Digits(_, _), NoZeros(_), LexLess(_, _, _)
\* How many digits t has from position i on.
Digits(t, i) == IF i > Len(t) THEN 0 ELSE IF IsDigit(At(t, i)) THEN 1 + Digits(t, i + 1) ELSE 0
NoZeros(t) == IF Len(t) > 1 /\ At(t, 1) = "0" THEN NoZeros(SubSeq(t, 2, Len(t))) ELSE t
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF At(a, i) # At(b, i) THEN DigitOf[At(a, i)] < DigitOf[At(b, i)] ELSE LexLess(a, b, i + 1)
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b, 1))
InRange(t) == ~Less(Largest, t)

\* What a text denotes as a version.
Parse(t) ==
  LET n == Digits(t, 1)
      m == IF n = 0 \/ n >= Len(t) THEN 0 ELSE IF At(t, n + 1) = "." THEN Digits(t, n + 2) ELSE 0
      a == NoZeros(SubSeq(t, 1, n))
      b == NoZeros(SubSeq(t, n + 2, n + 1 + m))
  IN IF n = 0 \/ m = 0 THEN [st |-> "INVALID_ARGUMENT"]
     ELSE IF ~InRange(a) \/ ~InRange(b) THEN [st |-> "INVALID_ARGUMENT"]
     ELSE [st |-> "OK", ver |-> <<a, b>>]
Text(v) == v[1] \o "." \o v[2]
Sign(a, b) == IF Less(a[1], b[1]) THEN -1 ELSE IF Less(b[1], a[1]) THEN 1
              ELSE IF Less(a[2], b[2]) THEN -1 ELSE IF Less(b[2], a[2]) THEN 1 ELSE 0

S0 == [V |-> [x \in {} |-> <<"0", "0">>]]
Get(s, h) == s.V[h]
Step(s, c) ==
  CASE c.op \in {"reset", "end"} -> [s |-> S0, r |-> IF c.op = "end" THEN [st |-> "OK", leak |-> 0, tmp |-> 0, fds |-> 0] ELSE [st |-> "OK"]]
    [] c.op = "vcmp" -> [s |-> s, r |-> [st |-> "OK", sign |-> Sign(c.a, c.b)]]
    [] c.op = "vparse" -> [s |-> s, r |-> Parse(c.s)]
    [] c.op = "vprint" ->
         LET t == Text(c.ver) IN [s |-> s, r |-> IF c.size > Len(t) THEN [st |-> "OK", ok |-> TRUE, text |-> t] ELSE [st |-> "OK", ok |-> FALSE]]
    [] c.op = "vset" -> [s |-> s, r |-> [st |-> "OK", ver |-> c.a, src |-> c.a]]
=============================================================================
