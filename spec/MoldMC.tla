------------------------------- MODULE MoldMC -------------------------------
(* Bounded exploration of the mold machine: every way to build, finish and use *)
(* a small mold.                                                              *)
EXTENDS Mold
VARIABLES s, hist

MayCall(t, c) ==
  LET base == IF ~Has(c, "x") THEN 0 ELSE IF c.x \in DOMAIN t.B THEN t.B[c.x] ELSE IF c.x \in DOMAIN t.mm THEN t.mm[c.x] ELSE 0
      cfg == IF ~Has(c, "x") THEN 0 ELSE IF c.x \in DOMAIN t.X THEN t.X[c.x] ELSE 0
      at == IF Has(c, "at") THEN BWalk(t, base, c.at) ELSE base
  IN CASE c.op = "put" -> IF base # 0 THEN t.b[base].fin ELSE t.h[cfg].fin
       [] c.op = "destroy" -> IF base # 0 THEN at # 0 /\ (t.b[base].k # "MOLD" \/ ~t.b[base].fin) ELSE FALSE
       [] c.op \in {"intro", "depr"} -> base # 0 /\ ~t.b[base].fin /\ ~t.b[base].dead       \* dates are given before finalizing
       [] c.op = "rtype" -> base # 0 /\ t.b[base].rt \in {"UNKNOWN", c.rt}
       [] c.op = "mfin" -> c.x \in DOMAIN t.B
       [] base # 0 -> at # 0
       [] OTHER -> TRUE

RECURSIVE SoundEl(_)
Dates(q) == \A i, j \in 1..Len(q) : i < j => q[i].intro < q[j].intro
SoundEl(e) ==
  /\ LegalName(e.name)
  /\ e.k = "KEYVAL" => e.t # "UNKNOWN" /\ Len(e.defs) > 0 /\ Dates(e.defs)
  /\ \A i, j \in 1..Len(e.rest) : (i # j /\ e.rest[i].rt \in {"MIN", "MAX"} /\ e.rest[i].rt = e.rest[j].rt) => e.rest[i].intro # e.rest[j].intro
  /\ \A i \in 1..Len(e.rest) : e.rest[i].rt # "UNKNOWN"
  /\ \A i \in 1..Len(e.els) : SoundEl(e.els[i])
RECURSIVE AllEls(_)
AllEls(els) == IF els = <<>> THEN <<>> ELSE <<Head(els)>> \o AllEls(Head(els).els) \o AllEls(Tail(els))
Claim(id, holds) == IF holds THEN {} ELSE {id}
Claims(t, c, z) ==
  LET u == z.s  ok == z.r.st = "OK"
      finished == {m \in DOMAIN u.mm : ~u.b[u.mm[m]].dead}
      M(w, m) == AbsMold(w, w.mm[m])
  IN Claim("C06", c.op = "mfin" /\ ok => \A i \in 1..Len(M(u, c.m).els) : SoundEl(M(u, c.m).els[i]))
     \cup Claim("C06", \A m \in finished : (MInvalid(u, u.mm[m]) = <<>> /\ ~u.b[u.mm[m]].inv) =>
            \A i \in 1..Len(M(u, m).els) : SoundEl(M(u, m).els[i]))
     \cup Claim("C06", \A m \in finished : \A e \in Range(AllEls(M(u, m).els)) : \A d \in Range(e.defs) :
            (MInvalid(u, u.mm[m]) = <<>> /\ ~u.b[u.mm[m]].inv) => d.intro <= M(u, m).ver)
     \cup Claim("C27", \A m \in finished : \A e \in Range(AllEls(M(u, m).els)) \cup {[docs |-> M(u, m).docs]} : Dates(e.docs))
     \cup Claim("C01", c.op = "getdef" /\ ok /\ c.x \in DOMAIN t.B /\ t.b[t.B[c.x]].k = "KEYVAL" =>
            LET e == Abs(t, t.B[c.x])  le == {i \in 1..Len(e.defs) : c.ver = NoVer \/ e.defs[i].intro <= c.ver}
            IN le # {} => \E i \in le : z.r.text = e.defs[i].v.x /\ \A j \in le : e.defs[j].intro <= e.defs[i].intro)
Mo == INSTANCE Explore WITH Machine <- MStep, Initially <- M0, Can <- MayCall, Claims <- Claims
Spec == Mo!Spec
View == Mo!View
=============================================================================
