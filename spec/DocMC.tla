------------------------------- MODULE DocMC --------------------------------
(* Bounded exploration of configs and molds written out and read back.        *)
EXTENDS Doc
VARIABLES s, hist
MM == INSTANCE MoldMC
MayCall(t, c) ==
  CASE Has(c, "x") /\ (c.x \in DOMAIN t.B \/ c.x \in DOMAIN t.mm) -> MM!MayCall(t, c)
    [] c.op = "put" -> t.h[t.X[c.x]].fin
    [] c.op = "destroy" -> IF Has(c, "at") THEN Target(t, c) # 0 ELSE t.h[t.X[c.x]].k # "CONFIG" \/ ~t.h[t.X[c.x]].fin
    [] c.op \in {"dump", "valid"} -> TRUE
    [] Has(c, "x") -> Target(t, c) # 0
    [] OTHER -> TRUE
Claim(id, holds) == IF holds THEN {} ELSE {id}
Claims(t, c, z) ==
  LET u == z.s  ok == z.r.st = "OK"
      x == u.C[c.c]
      back == ReadDoc(u, u.D[c.d], u.h[x].mh, "(probe)")
      y == back.s.C["(probe)"]
      id == IF c.fmt = "json" THEN "C16" ELSE "C17"
  IN Claim(id, (c.op = "ser" /\ ok /\ u.D[c.d].k # "raw" /\ InvalidList(Validate(u, x).s, x) = <<>>) =>
            back.r.st = "OK" /\ Diff(back.s, x, y) = <<>> /\ back.s.h[x].ver = back.s.h[y].ver)
     \cup Claim(id, c.op = "ser" => u.h = t.h)
     \cup Claim("C26", c.op = "unser" /\ z.r.st \notin Tolerated => DOMAIN u.C = DOMAIN t.C)
     \cup Claim("C26", c.op = "unser" /\ ok => InvalidList(u, u.C[c.c]) = <<>>)
     \cup Claim("C18", c.op = "mser" => LET k == u.D[c.d].m  m == t.molds[c.m] IN
            /\ Kept(k) = k
            /\ \A i \in 1..Len(m.els) : [k.els[i] EXCEPT !.docs = <<>>, !.rest = <<>>, !.els = <<>>] = [m.els[i] EXCEPT !.docs = <<>>, !.rest = <<>>, !.els = <<>>])
Do == INSTANCE Explore WITH Machine <- DStep, Initially <- D0, Can <- MayCall, Claims <- Claims
Spec == Do!Spec
View == Do!View
=============================================================================
