------------------------------ MODULE StoreMC -------------------------------
(* Bounded exploration of a store behind plugins.                             *)
EXTENDS Store
VARIABLES s, hist
MayCall(t, c) ==
  CASE c.op = "put" -> t.h[t.X[c.x]].fin
    [] c.op = "destroy" -> IF Has(c, "at") THEN Target(t, c) # 0 ELSE t.h[t.X[c.x]].k # "CONFIG" \/ ~t.h[t.X[c.x]].fin
    [] c.op = "fdel" -> Norm(c.path) \in DOMAIN t.F
    [] c.op = "fput" -> At(t, Norm(c.path)) # "FS_ERROR"
    [] c.op \in {"dump", "valid"} -> TRUE
    [] Has(c, "x") -> Target(t, c) # 0
    [] OTHER -> TRUE
Claim(id, holds) == IF holds THEN {} ELSE {id}
Ask == [e \in {"a", "b", "s/x", "s/y", "t"} |-> [e |-> e, len |-> 0, null |-> FALSE]]
StoreClaims(t, c, z) ==
  LET u == z.s
      ok == IF "st" \in DOMAIN z.r THEN z.r.st = "OK" ELSE FALSE
      p == Members(t, c)[1]
      path == IF c.op = "mwrite" THEN MoldPath(p, c.e) ELSE ConfigPath(p, c.e)
      others(w) == [f \in DOMAIN w.F \ {path} |-> w.F[f]]
      writes == c.op \in {"cwrite", "cremove", "mwrite"}
      x == t.C[c.c]
      d == u.F[path]
      back == ReadDoc(u, d, t.h[x].mh, "(probe)")
      clean == InvalidList(Validate(t, x).s, x) = <<>>
  IN Claim("C19", (writes /\ ~Has(c, "fault")) => IF ok THEN others(u) = others(t) /\ (c.op = "cremove" <=> path \notin DOMAIN u.F) ELSE u.F = t.F)
     \cup Claim("C29", (writes /\ Has(c, "fault")) =>
            LET n == EStep(t, Without(c, "fault")).s
                held(w) == IF path \in DOMAIN w.F THEN {w.F[path]} ELSE {}
            IN others(u) = others(t) /\ held(u) \in {held(t), held(n)} /\ (ok => held(u) = held(n)))
     \cup Claim("C19", c.op \in {"cread", "mread", "cquery", "mquery", "centries", "mentries", "cset", "gen"} => u.F = t.F)
     \cup Claim("C19", (c.op = "cwrite" /\ ok /\ clean /\ d.k = "doc") => back.r.st = "OK" /\ Diff(back.s, x, back.s.C["(probe)"]) = <<>>)
     \cup Claim("C19", (c.op = "cread" /\ ok) => \E q \in Range(Members(t, c)) : ConfigPath(q, c.e) \in DOMAIN t.F)
     \cup Claim("C20", \A i \in DOMAIN u.I : \A g \in {u.I[i][k].group : k \in 1..Len(u.I[i])} : \A e \in DOMAIN Ask :
            LET l == ConfigList(u, [i |-> i, g |-> g]).r
                m == MoldList(u, [i |-> i, g |-> g]).r
                q == EntryQuery(u, Ask[e], ConfigHolders(u, [i |-> i, g |-> g] @@ Ask[e])).r.st
                w == EntryQuery(u, Ask[e], MoldHolders(u, [i |-> i, g |-> g] @@ Ask[e])).r.st
            IN l.st = "OK" =>
               /\ (q = "EXISTS") = (e \in {n.name : n \in l.list})
               \* a mold of its own is listed, what only a namespace covers is not
               /\ (e \in {n.name : n \in m.list}) => w = "EXISTS"
               /\ (q = "EXISTS" => w = "EXISTS")
               /\ Cardinality({n.name : n \in l.list}) = Cardinality(l.list))
     \cup Claim("C21", (c.op = "mread" /\ ok) => \E q \in Range(Members(t, c)) : MoldPath(q, c.e) \in DOMAIN t.F \/ NamespacePath(q, c.e) \in DOMAIN t.F)
     \cup Claim("C21", (c.op = "mread" /\ ok /\ ~\E q \in Range(Members(t, c)) : OverPath(q, c.e) \in DOMAIN t.F) =>
            \E f \in DOMAIN t.F : t.F[f].k = "mold" /\ u.molds[c.m].els = WithVer(t.F[f].m).els)
Claims(t, c, z) == StoreClaims(t, c, z)
So == INSTANCE Explore WITH Machine <- EStep, Initially <- E0, Can <- MayCall, Claims <- Claims
Spec == So!Spec
View == So!View
=============================================================================
