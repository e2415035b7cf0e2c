---------------------------- MODULE ConfigTrace -----------------------------
(* Trace validation: is the recorded execution of libdisir a behaviour of the *)
(* config machine?  Every line is one public call: c the call, o the answer.  *)
(* On the first disagreement of a scenario the rest of it is skipped, so that *)
(* the following scenarios are still checked.                                 *)
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, skip
vars == <<l, s, skip>>
TraceInit == l = 1 /\ s = S0 /\ skip = FALSE
\* r.mention[i] has to occur in line i of the report.
Occurs(w, t) == \E i \in 0..(Len(t) - Len(w)) : SubSeq(t, i + 1, i + Len(w)) = w
Same(r, o) ==
  \A f \in DOMAIN r :
    IF f = "mention" THEN \A i \in 1..Len(r.mention) : i <= Len(o.lines) /\ Occurs(r.mention[i], o.lines[i])
    ELSE f \in DOMAIN o /\ r[f] = o[f]
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET c == Trace[l].c  o == Trace[l].o
     IN IF skip /\ c.op # "reset" THEN UNCHANGED <<s, skip>>
        ELSE LET z == Step(s, c)
             IN IF Same(z.r, o) THEN s' = z.s /\ skip' = FALSE
                ELSE PrintT(<<"REJECT", l, ToJson(z.r)>>) /\ s' = z.s /\ skip' = TRUE
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
