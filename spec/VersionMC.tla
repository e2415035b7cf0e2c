----------------------------- MODULE VersionMC ------------------------------
EXTENDS Version
VARIABLES s, hist
MayCall(t, c) == TRUE
Claim(id, holds) == IF holds THEN {} ELSE {id}
Known == {<<a, b>> : a, b \in {"0", "1", "9", "10", "99", "2147483647", "2147483648", "4294967294", "4294967295"}}
Claims(t, c, z) ==
  Claim("C15",
    /\ c.op = "vcmp" => /\ Sign(c.a, c.b) = -Sign(c.b, c.a)
                        /\ (Sign(c.a, c.b) = 0) = (c.a = c.b)
                        /\ \A d \in Known : (Sign(c.a, c.b) <= 0 /\ Sign(c.b, d) <= 0) => Sign(c.a, d) <= 0
    /\ (c.op = "vparse" /\ z.r.st = "OK") => /\ Parse(Text(z.r.ver)) = z.r
                                            /\ InRange(z.r.ver[1]) /\ InRange(z.r.ver[2])
    /\ c.op = "vprint" => Parse(Text(c.ver)) = [st |-> "OK", ver |-> c.ver])
Ve == INSTANCE Explore WITH Machine <- Step, Initially <- S0, Can <- MayCall, Claims <- Claims
Spec == Ve!Spec
View == Ve!View
=============================================================================
