-------------------------------- MODULE Error -------------------------------
(* The error text of library instances (C28).                                *)
(*   s.I : instance handle -> [set, text]                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
S0 == [I |-> Empty]
None == [set |-> FALSE, text |-> ""]
Set(s, i, t) == IF t = "" THEN s ELSE [s EXCEPT !.I[i] = [set |-> TRUE, text |-> t]]
Copied(t, n) ==          \* what a buffer of n bytes holds after the text was copied into it
  IF n >= 4 /\ n > Len(t) THEN [st |-> "OK", term |-> TRUE, text |-> t]
  ELSE IF n >= 4 THEN [st |-> "INSUFFICIENT_RESOURCES", term |-> TRUE, text |-> SubSeq(t, 1, n - 4) \o "..."]
  ELSE IF n > 0 THEN [st |-> "INSUFFICIENT_RESOURCES", term |-> TRUE, text |-> ""]
  ELSE [st |-> "INSUFFICIENT_RESOURCES"]
Step(s, c) ==
  CASE c.op \in {"reset", "end"} -> [s |-> S0, r |-> IF c.op = "end" THEN [st |-> "OK", leak |-> 0, tmp |-> 0, fds |-> 0] ELSE [st |-> "OK"]]
    [] c.op = "iblank" -> [s |-> [s EXCEPT !.I = (c.i :> None) @@ @], r |-> [st |-> "OK"]]
    [] c.op = "ifree" -> [s |-> [s EXCEPT !.I = [h \in DOMAIN @ \ {c.i} |-> @[h]]], r |-> [st |-> "OK", null |-> TRUE]]
    [] c.op = "ierrset" -> [s |-> Set(s, c.i, c.v), r |-> [st |-> "OK"]]
    [] c.op = "ierrwrap" -> [s |-> Set(s, c.i, c.a \o s.I[c.i].text \o c.b), r |-> [st |-> "OK"]]
    [] c.op = "ierrclear" -> [s |-> [s EXCEPT !.I[c.i] = None], r |-> [st |-> "OK"]]
    [] c.op = "ierr" -> [s |-> s, r |-> [st |-> "OK", set |-> s.I[c.i].set, text |-> s.I[c.i].text]]
    [] c.op = "ierrcopy" ->
         LET t == s.I[c.i].text  r == Copied(t, c.size)
         IN [s |-> s, r |-> IF "nosize" \in DOMAIN c THEN r ELSE r @@ [size |-> Len(t)]]
=============================================================================
