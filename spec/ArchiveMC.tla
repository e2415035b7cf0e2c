----------------------------- MODULE ArchiveMC ------------------------------
(* Bounded exploration of exporting to, extending and importing archives.     *)
EXTENDS Archive
VARIABLES s, hist
MayCall(t, c) ==
  CASE c.op = "put" -> t.h[t.X[c.x]].fin
    [] c.op = "destroy" -> Has(c, "at") /\ Target(t, c) # 0
    [] c.op = "fdel" -> Norm(c.path) \in DOMAIN t.F
    [] c.op \in {"dump", "valid"} -> TRUE
    [] c.op \in {"ires", "istat"} -> Place(t, c) # 0
    [] Has(c, "x") -> Target(t, c) # 0
    [] OTHER -> TRUE
Claim(id, holds) == IF holds THEN {} ELSE {id}
Arcs(t) == {f \in DOMAIN t.F : t.F[f].k = "arc"}
NotArcs(t) == [f \in DOMAIN t.F \ Arcs(t) |-> t.F[f]]
Claims(t, c, z) ==
  LET u == z.s
      ok == IF "st" \in DOMAIN z.r THEN z.r.st = "OK" ELSE FALSE
      path == Named_(c.path)
      q == t.P[c.p]
      \* what the selected entries of an import are written to
      targets == {ConfigPath(Members(t, [i |-> c.i, g |-> q[k].g])[1], q[k].e) : k \in {k \in 1..Len(q) : Chosen(q[k])}}
  IN Claim("C22", c.op \in {"abegin", "aentry", "agroup"} => u.F = t.F)
     \cup Claim("C22", (c.op = "afin" /\ ok /\ Has(c, "path")) => path \in Arcs(u) /\ u.F[path].ents = t.A[c.a].ents)
     \cup Claim("C22", c.op = "afin" => NotArcs(u) = NotArcs(t))
     \cup Claim("C22", \A f \in Arcs(u) : \A i, j \in 1..Len(u.F[f].ents) :
            i # j => <<u.F[f].ents[i].g, u.F[f].ents[i].e>> # <<u.F[f].ents[j].g, u.F[f].ents[j].e>>)
     \cup Claim("C24", (c.op = "afin" /\ ~ok) => \A f \in Arcs(t) : \E w \in Arcs(u) : u.F[w].ents = t.F[f].ents \/ u.F[w].ents = t.A[c.a].ents)
     \cup Claim("C23", c.op \in {"aimport", "ires", "istat"} => u.F = t.F)
     \cup Claim("C23", (c.op = "ifin" /\ c.opt = "DISCARD") => u.F = t.F)
     \cup Claim("C23", c.op = "ifin" => \A f \in (DOMAIN t.F \cup DOMAIN u.F) \ targets : f \in DOMAIN t.F /\ f \in DOMAIN u.F /\ u.F[f] = t.F[f])
     \cup Claim("C23", (c.op = "ires" /\ c.opt = "DO" /\ ok) => LET k == Place(t, c) IN
            ConfigPath(Members(t, c)[1], c.e) \in DOMAIN t.F => q[k].st = "OK")
     \cup Claim("C25", c.op = "aimport" /\ ~ok => DOMAIN u.P = DOMAIN t.P)
Ao == INSTANCE Explore WITH Machine <- AStep, Initially <- A0, Can <- MayCall, Claims <- Claims
Spec == Ao!Spec
View == Ao!View
=============================================================================
