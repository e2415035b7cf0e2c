---------------------------- MODULE ArchiveTrace ------------------------------
(* Trace validation: is the recorded execution of libdisir a behaviour of the *)
(* store machine?  Every line is one public call: c the call, o the answer.  *)
(* On the first disagreement of a scenario the rest of it is skipped, so that *)
(* the following scenarios are still checked.                                 *)
EXTENDS Archive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, skip
vars == <<l, s, skip>>
TraceInit == l = 1 /\ s = A0 /\ skip = FALSE
\* r.mention[i] has to occur in line i of the report.
Occurs(w, t) == \E i \in 0..(Len(t) - Len(w)) : SubSeq(t, i + 1, i + Len(w)) = w
IsSet(r, q) == r = Range(q) /\ Len(q) = Cardinality(r)
Seen(r, o) == r.path = o.path /\ IF r.k = "other" THEN o.k # "absent" ELSE r.k = o.k /\ IsSet(r.index, o.index) /\ IsSet(r.extra, o.extra)
Same(r, o) ==
  \A f \in DOMAIN r :
    CASE f = "oneof" -> o.st \in r.oneof
      [] f \in {"files", "list", "lines"} -> f \in DOMAIN o /\ IsSet(r[f], o[f])
      [] f = "texts" -> f \in DOMAIN o /\ r[f] \subseteq Range(o[f])
      [] f = "look" -> f \in DOMAIN o /\ Len(o.look) = Len(r.look) /\ \A i \in 1..Len(r.look) : Seen(r.look[i], o.look[i])
      [] f = "mention" -> \A i \in 1..Len(r.mention) : i <= Len(o.lines) /\ Occurs(r.mention[i], o.lines[i])
      [] OTHER -> f \in DOMAIN o /\ r[f] = o[f]
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET c == Trace[l].c  o == Trace[l].o
     IN IF skip /\ c.op # "reset" THEN UNCHANGED <<s, skip>>
        ELSE LET z == AStep(s, c)
             IN IF Same(z.r, o) THEN s' = z.s /\ skip' = FALSE
                ELSE PrintT(<<"REJECT", l, ToJson(z.r)>>) /\ s' = z.s /\ skip' = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
