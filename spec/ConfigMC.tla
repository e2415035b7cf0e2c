------------------------------ MODULE ConfigMC ------------------------------
(* Bounded exploration of the config machine, with the properties stated on   *)
(* its states rather than through the rules that make them.                   *)
EXTENDS Config
VARIABLES s, hist

\* The contract of use: what a caller may ask for at all.
MayCall(t, c) ==
  CASE c.op = "put" -> t.h[t.X[c.x]].fin
    [] c.op = "destroy" -> IF Has(c, "at") THEN Target(t, c) # 0 ELSE t.h[t.X[c.x]].k # "CONFIG" \/ ~t.h[t.X[c.x]].fin
    [] c.op = "cfree" -> DOMAIN t.U = {}
    [] c.op = "upd" -> DOMAIN t.U = {}
    [] c.op \in {"cset", "setv", "fin"} /\ DOMAIN t.U # {} -> FALSE      \* nobody else writes during an update
    [] c.op = "cfin" -> c.x \in DOMAIN t.X /\ t.h[t.X[c.x]].k = "CONFIG"
    [] c.op = "hold" -> Target(t, c) # 0
    [] c.op \in {"dump", "valid"} -> TRUE
    [] Has(c, "x") -> Target(t, c) # 0
    [] OTHER -> TRUE

Trees(t) == [k \in DOMAIN t.C |-> Dump(t, t.C[k], TRUE)]
Alive(t) == {x \in 1..Len(t.h) : ~Gone(t, x)}
Keyvals1(t) == {x \in Alive(t) : t.h[x].k = "KEYVAL" /\ t.h[x].me}
NamesOf(t, x) == {t.h[k].name : k \in Range(t.h[x].kids)}

\* Everything below x is of the mold, with values it allows and in numbers it allows.
RECURSIVE WellFormed(_, _)
WellFormed(t, x) ==
  LET n == t.h[x]
      inner(y) == t.h[y].me /\ t.h[y].fin /\ ~t.h[y].inv
                  /\ IF t.h[y].k = "KEYVAL" THEN Allowed(ElOf(t, y), CfgVer(t, y), t.h[y].v) /\ t.h[y].t = ElOf(t, y).t
                     ELSE WellFormed(t, y)
      els == MoldEls(t, x)
      lim(i) == Limits(els[i], CfgVer(t, x))
  IN /\ \A y \in Range(n.kids) : inner(y)
     /\ \A i \in 1..Len(els) : Live(els[i], CfgVer(t, x)) =>
          Count(t, x, els[i].name) >= lim(i).min /\ (lim(i).max = 0 \/ Count(t, x, els[i].name) <= lim(i).max)

Failed == {"claimed"}
Claim(id, holds) == IF holds THEN {} ELSE {id}
Claims(t, c, z) ==
  LET u == z.s  ok == z.r.st = "OK"
  IN Claim("C01", c.op = "gen" /\ ok =>
       \A x \in Keyvals1(u) : u.h[x].root = u.C[c.c] =>
         LET e == ElOf(u, x) IN u.h[x].v \in {e.defs[i].v : i \in {j \in 1..Len(e.defs) : \A k \in 1..Len(e.defs) :
             /\ e.defs[j].intro <= CfgVer(u, x)
             /\ (e.defs[k].intro <= CfgVer(u, x) => e.defs[k].intro <= e.defs[j].intro)}})
     \cup Claim("C02", c.op = "gen" /\ ok => WellFormed(u, u.C[c.c]))
     \cup Claim("C03", c.op \in {"setv", "setself", "cset"} =>
       /\ \A x \in Keyvals1(u) : (x <= Len(t.h) /\ u.h[x].fin) => (u.h[x].v # t.h[x].v => Allowed(ElOf(u, x), CfgVer(u, x), u.h[x].v))
       /\ (~ok => \A x \in Keyvals1(t) : t.h[x].fin => u.h[x].v = t.h[x].v))
     \cup Claim("C04", \A x \in Alive(u) : (u.h[x].k \in Cont /\ u.h[x].me /\ u.h[x].fin /\ x <= Len(t.h)) =>
       \A nm \in NamesOf(u, x) : LET e == IdxByName(MoldEls(u, x), nm)
         IN e # 0 => LET mx == Limits(MoldEls(u, x)[e], CfgVer(u, x)).max
            IN (t.h[x].fin /\ Count(u, x, nm) > Count(t, x, nm)) => (mx = 0 \/ Count(u, x, nm) <= mx))
     \cup Claim("C05", \A k \in DOMAIN u.C : ~u.h[u.C[k]].dead =>
       /\ (Validate(u, u.C[k]).st = "OK") = (InvalidList(Validate(u, u.C[k]).s, u.C[k]) = <<>>)
       /\ WellFormed(u, u.C[k]) => Validate(u, u.C[k]).st = "OK")
     \cup Claim("C07", \A k \in DOMAIN u.C : \A x \in Alive(u) :
       (u.h[x].root = u.C[k] /\ u.h[x].inp /\ u.h[x].par # 0 /\ ~Gone(u, u.C[k]) /\ x \in Range(u.h[u.h[x].par].kids)) =>
         LET q == Query(u, u.C[k], RootName(u, x)) IN
         \* names nobody could ask for do not occur here
         (\A y \in Alive(u) : u.h[y].root = u.C[k] => u.h[y].name # "") => q.st = "OK" /\ q.id = x)
     \cup Claim("C08", c.op = "cset" /\ ~ok => Trees(u) = Trees(t))
     \cup Claim("C09", \A x \in Alive(u) : u.h[x].k \in Cont =>
       /\ Cardinality(Range(u.h[x].kids)) = Len(u.h[x].kids)
       /\ \A y \in Range(u.h[x].kids) : u.h[y].par = x
       /\ \A y \in Range(u.h[x].kids) : Nth(u, x, u.h[y].name, Cardinality({i \in 1..Len(u.h[x].kids) :
            u.h[u.h[x].kids[i]].name = u.h[y].name /\ \E j \in 1..Len(u.h[x].kids) : j > i /\ u.h[x].kids[j] = y})) = y)
     \cup Claim("C10",
       /\ c.op \in {"put", "kfree"} => \A hd \in DOMAIN u.X : u.h[u.X[hd]].dead = t.h[u.X[hd]].dead
       /\ c.op \in {"put", "kfree"} => \A hd \in DOMAIN u.C : u.h[u.C[hd]].dead = t.h[u.C[hd]].dead
       /\ \A x \in 1..Len(t.h) : t.h[x].dead => u.h[x].dead
       /\ \A x \in Alive(u) : Refs(u, x) > 0)
     \cup Claim("C11", c.op = "knext" /\ c.k \in DOMAIN t.K /\ ok =>
       LET q == AliveItems(t, t.K[c.k]) IN u.K[c.k].items = q /\ u.K[c.k].it <= Len(q) /\ u.K[c.k].it > 0)
     \cup Claim("C12", \A a, b \in DOMAIN u.C : (~u.h[u.C[a]].dead /\ ~u.h[u.C[b]].dead) =>
       /\ (Diff(u, u.C[a], u.C[b]) = <<>>) = (Diff(u, u.C[b], u.C[a]) = <<>>)
       /\ (a = b => Diff(u, u.C[a], u.C[b]) = <<>>))
     \cup Claim("C13",
       /\ c.op \in {"updres", "updcont", "updconf"} /\ ~ok /\ ~(c.op = "updcont" /\ t.U[c.u].conf = 0) => Trees(u) = Trees(t)
       /\ c.op = "updconf" /\ ok => z.r.keyval # z.r.mold)
M == INSTANCE Explore WITH Machine <- Step, Initially <- S0, Can <- MayCall, Claims <- Claims
Spec == M!Spec
View == M!View
=============================================================================
