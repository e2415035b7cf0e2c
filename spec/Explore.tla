------------------------------ MODULE Explore -------------------------------
(* Bounded exploration of a machine: from the state a prelude leads to, every *)
(* sequence of at most Depth calls of a finite alphabet that the contract of  *)
(* use allows (Can), each state visited once (View leaves the history out).   *)
(* On every transition the claims of the machine are checked, and the calls   *)
(* that reach it are printed, so that each transition can be made on the real *)
(* library as well.                                                           *)
(*   World.prelude, World.alphabet, World.observe : sequences of              *)
(*     [c: call, needs: sequence of <<map of the state, handle>>, fresh: same]*)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Machine(_, _),      \* the state and answer of a call
          Initially,          \* the state before the prelude
          Can(_, _),          \* may the call be made at all
          Claims(_, _, _)     \* what has to hold of state, call, result
World == TLCGet(1)                                \* read once, at Init
VARIABLES s, hist
vars == <<s, hist>>

Handles(s0, e) ==
  /\ \A i \in 1..Len(e.needs) : e.needs[i][2] \in UNION {DOMAIN s0[k] : k \in {e.needs[i][1][j] : j \in 1..Len(e.needs[i][1])}}
  /\ \A i \in 1..Len(e.fresh) : e.fresh[i][2] \notin UNION {DOMAIN s0[k] : k \in {e.fresh[i][1][j] : j \in 1..Len(e.fresh[i][1])}}
Enabled(s0, e) == Handles(s0, e) /\ Can(s0, e.c)
RECURSIVE Run(_, _)
Run(s0, q) == IF q = <<>> THEN s0 ELSE Run(Machine(s0, Head(q).c).s, Tail(q))

\* The calls a history is ended with: those that can be made after it, or (fold) each that can be made after those before it.
RECURSIVE Fold(_, _)
Fold(s0, i) ==
  IF i > Len(World.observe) THEN <<>>
  ELSE LET e == World.observe[i] IN IF Enabled(s0, e) THEN <<i>> \o Fold(Machine(s0, e.c).s, i + 1) ELSE Fold(s0, i + 1)
Ends(s0) == IF World.fold THEN Fold(s0, 1) ELSE SelectSeq([i \in 1..Len(World.observe) |-> i], LAMBDA i : Enabled(s0, World.observe[i]))

Init == TLCSet(1, ndJsonDeserialize(IOEnv.WORLD)[1]) /\ s = Run(Initially, World.prelude) /\ hist = <<>>
Next ==
  /\ Len(hist) < World.depth
  /\ \E k \in 1..Len(World.alphabet) :
       LET e == World.alphabet[k] IN
       /\ Enabled(s, e)
       /\ LET z == Machine(s, e.c) IN
          /\ s' = z.s
          /\ hist' = Append(hist, k)
          /\ Assert(Claims(s, e.c, z) = {}, <<"CLAIM", Claims(s, e.c, z), hist', z.r>>)
          /\ PrintT("T " \o ToJson(<<hist', Ends(z.s)>>))
Spec == Init /\ [][Next]_vars
View == s
=============================================================================
