------------------------------ MODULE ErrorMC -------------------------------
EXTENDS Error
VARIABLES s, hist
MayCall(t, c) == TRUE
Claim(id, holds) == IF holds THEN {} ELSE {id}
Claims(t, c, z) ==
  Claim("C28",
    /\ (c.op = "ierrset" /\ c.v # "") => z.s.I[c.i].text = c.v
    /\ c.op = "ierrclear" => ~z.s.I[c.i].set /\ z.s.I[c.i].text = ""
    /\ c.op = "ierrcopy" => z.s = t /\ ("text" \in DOMAIN z.r => Len(z.r.text) < c.size)
    /\ \A h \in DOMAIN t.I : (h # c.i /\ h \in DOMAIN z.s.I) => z.s.I[h] = t.I[h])
Er == INSTANCE Explore WITH Machine <- Step, Initially <- S0, Can <- MayCall, Claims <- Claims
Spec == Er!Spec
View == Er!View
=============================================================================
