-------------------------------- MODULE Mold --------------------------------
(* The mold machine: molds built call by call (elements, defaults,           *)
(* restrictions, documentation), what is accepted, and what the finished     *)
(* mold then means for the config machine.                                   *)
(*   s.b : heap of builder nodes   s.B : context handle -> node              *)
(*   s.mm : mold handle -> root node                                         *)
(* Whatever addresses no builder node is a step of the config machine.       *)
EXTENDS Config

M0 == S0 @@ [b |-> <<>>, B |-> Empty, mm |-> Empty]
Num0 == [s |-> "0", n |-> 1000000, x |-> "0.000000"]
BNode(k, par, root) ==
  [k |-> k, name |-> "", t |-> "UNKNOWN", v |-> ZeroOf("STRING"), par |-> par, root |-> root,
   fin |-> FALSE, inv |-> FALSE, dead |-> FALSE, inp |-> FALSE,
   kids |-> <<>>, defs |-> <<>>, rest |-> <<>>, docs |-> <<>>,
   intro |-> IF k = "DOCUMENTATION" THEN 0 ELSE 1000, depr |-> 0,
   rt |-> "UNKNOWN", n |-> Num0, lo |-> Num0, hi |-> Num0, s |-> "(null)", ver |-> 1000]
RECURSIVE BGone(_, _)
BGone(s, x) == s.b[x].dead \/ (s.b[x].par # 0 /\ BGone(s, s.b[x].par))

\* ---------------------------------------------------------------- what a builder node describes
Cnt(v) == LET I == {i \in 0..20 : ToString(i) = v.s} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
AbsDocs(s, x) == [i \in 1..Len(s.b[x].docs) |-> LET d == s.b[s.b[x].docs[i]] IN [v |-> d.v.s, intro |-> d.intro]]
AbsRest(s, x) ==
  LET n == s.b[x]
  IN [rt |-> n.rt, n |-> IF n.rt \in {"MIN", "MAX"} THEN Cnt(n.n) ELSE 0,
      lo |-> CASE n.rt = "RANGE" -> n.lo.n [] n.rt = "NUMERIC" -> n.n.n [] OTHER -> 0,
      hi |-> IF n.rt = "RANGE" THEN n.hi.n ELSE 0,
      s |-> n.s, intro |-> n.intro, depr |-> n.depr, docs |-> AbsDocs(s, x)]
RECURSIVE Abs(_, _)
Abs(s, x) ==
  LET n == s.b[x]
  IN [k |-> n.k, name |-> n.name, t |-> n.t,
      defs |-> [i \in 1..Len(n.defs) |-> [v |-> s.b[n.defs[i]].v, intro |-> s.b[n.defs[i]].intro]],
      rest |-> [i \in 1..Len(n.rest) |-> AbsRest(s, n.rest[i])],
      intro |-> n.intro, depr |-> n.depr, docs |-> AbsDocs(s, x),
      els |-> [i \in 1..Len(n.kids) |-> Abs(s, n.kids[i])]]
AbsMold(s, x) == [els |-> Abs(s, x).els, docs |-> AbsDocs(s, x), ver |-> s.b[x].ver]
\* The config machine sees every finished mold as it stands now.
Refresh(z) == [z EXCEPT !.s.molds = [m \in DOMAIN @ |-> IF m \in DOMAIN z.s.mm THEN AbsMold(z.s, z.s.mm[m]) ELSE @[m]]]

\* ---------------------------------------------------------------- well-formedness (C06)
RECURSIVE MValidate(_, _), FirstBad(_, _), AllBad(_, _, _)
\* In order, up to the first that is not valid.
FirstBad(s, q) ==
  IF q = <<>> THEN [s |-> s, st |-> "OK"]
  ELSE LET v == MValidate(s, Head(q)) IN IF v.st # "OK" THEN v ELSE FirstBad(v.s, Tail(q))
AllBad(s, q, acc) ==
  IF q = <<>> THEN [s |-> s, st |-> acc]
  ELSE LET v == MValidate(s, Head(q)) IN AllBad(v.s, Tail(q), IF v.st = "OK" THEN acc ELSE "ELEMENTS_INVALID")
SameDate(s, q, x) == Cardinality({i \in 1..Len(q) : s.b[q[i]].intro = s.b[x].intro})
MOwn(s, x) ==
  LET n == s.b[x]  p == s.b[n.par]
      okname == LegalName(n.name)
      d == FirstBad(s, n.defs)
      r == FirstBad(IF n.k = "KEYVAL" THEN d.s ELSE s, n.rest)
      no(st) == [s |-> s, st |-> st]
  IN CASE n.k = "KEYVAL" ->
            IF ~okname THEN no("RESTRICTION_VIOLATED")
            ELSE IF n.t = "UNKNOWN" THEN no("WRONG_VALUE_TYPE")
            ELSE IF n.defs = <<>> THEN no("DEFAULT_MISSING")
            ELSE IF d.st # "OK" THEN d ELSE r
       [] n.k = "SECTION" -> IF ~okname THEN no("RESTRICTION_VIOLATED") ELSE r
       [] n.k = "DEFAULT" -> no(IF SameDate(s, p.defs, x) = 1 THEN "OK" ELSE "CONFLICTING_SEMVER")
       [] n.k = "RESTRICTION" ->
            no(IF n.rt = "UNKNOWN" THEN "WRONG_VALUE_TYPE"
               ELSE IF n.rt \in {"MIN", "MAX"}
                       /\ \E i \in 1..Len(p.rest) : p.rest[i] # x /\ s.b[p.rest[i]].rt = n.rt /\ s.b[p.rest[i]].intro = n.intro
               THEN "CONFLICTING_SEMVER" ELSE "OK")
       [] OTHER -> no("OK")
MValidate(s, x) ==
  LET n == s.b[x]
      own == MOwn([s EXCEPT !.b[x].inv = FALSE], x)
      kids == IF n.k \in {"SECTION", "MOLD"} THEN AllBad(own.s, n.kids, "OK") ELSE own
      st == IF own.st # "OK" THEN own.st ELSE kids.st
      mark == [kids.s EXCEPT !.b[x].inv = TRUE]
  IN IF st = "OK" THEN [s |-> kids.s, st |-> "OK"]
     ELSE IF (IF n.par = 0 THEN FALSE ELSE s.b[n.par].fin) THEN [s |-> mark, st |-> st]
     ELSE [s |-> IF st = "ELEMENTS_INVALID" THEN kids.s ELSE mark, st |-> IF n.fin THEN st ELSE "INVALID_CONTEXT"]

\* The path of a mold element, and the elements marked invalid.
RECURSIVE MPlaced(_, _), MRoot(_, _), MInvalid(_, _)
MPlaced(s, x) == s.b[x].par = 0 \/ (s.b[x].inp /\ MPlaced(s, s.b[x].par))
MNamed(s, x, name) == SelectSeq(s.b[x].kids, LAMBDA k : s.b[k].name = name)
MRoot(s, x) ==
  LET n == s.b[x]  q == MNamed(s, n.par, n.name)
      i == CHOOSE j \in 1..Len(q) : q[j] = x
      own == IF i = 1 THEN n.name ELSE n.name \o "@" \o ToString(i - 1)
  IN IF s.b[n.par].par = 0 THEN own ELSE MRoot(s, n.par) \o "." \o own
MInvalid(s, x) ==
  Flat([i \in 1..Len(s.b[x].kids) |->
     LET k == s.b[x].kids[i]
     IN (IF s.b[k].inv THEN <<MRoot(s, k)>> ELSE <<>>) \o (IF s.b[k].k = "SECTION" THEN MInvalid(s, k) ELSE <<>>)])

\* ---------------------------------------------------------------- finalizing
ByDate(s, q, x) ==          \* x behind everything not introduced later
  LET i == FirstIdx(q, LAMBDA y : s.b[y].intro > s.b[x].intro)
  IN IF i = 0 THEN Append(q, x) ELSE SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Store(s, x) ==
  LET n == s.b[x]
      s1 == [s EXCEPT !.b[x].inp = TRUE]
  IN CASE n.k \in {"KEYVAL", "SECTION"} -> [s1 EXCEPT !.b[n.par].kids = Append(@, x)]
       [] n.k = "DEFAULT" -> [s1 EXCEPT !.b[n.par].defs = ByDate(s, @, x)]
       [] n.k = "DOCUMENTATION" -> [s1 EXCEPT !.b[n.par].docs = ByDate(s, @, x)]
       [] OTHER -> [s1 EXCEPT !.b[n.par].rest = Append(@, x)]
Drop(s, x) ==
  LET p == s.b[x].par  out(q) == SelectSeq(q, LAMBDA y : y # x)
  IN [s EXCEPT !.b[p].kids = out(@), !.b[p].defs = out(@), !.b[p].rest = out(@), !.b[p].docs = out(@), !.b[x].inp = FALSE]
MFinalize(s, x) ==
  LET n == s.b[x]  p == s.b[n.par]
      first == IF n.k = "DEFAULT" THEN Store(s, x) ELSE s          \* a default counts among its siblings
      v == MValidate(first, x)
      ok(t) == [t EXCEPT !.b[x].fin = TRUE,
                  !.b[n.root].ver = Max2(@, Max2(IF n.k = "KEYVAL" THEN 0 ELSE n.intro, n.depr))]
      in(t) == IF n.k = "DEFAULT" THEN t ELSE Store(t, x)
      un(t) == IF n.k = "DEFAULT" THEN Drop(t, x) ELSE t
  IN CASE n.k = "MOLD" -> [s |-> s, st |-> "WRONG_CONTEXT", kept |-> TRUE]
       [] n.fin -> [s |-> s, st |-> "CONTEXT_IN_WRONG_STATE", kept |-> TRUE]
       [] n.k = "DOCUMENTATION" ->
            IF \E i \in 1..Len(p.docs) : s.b[p.docs[i]].intro = n.intro
            THEN [s |-> s, st |-> "CONFLICTING_SEMVER", kept |-> TRUE]
            ELSE [s |-> ok(Store(s, x)), st |-> "OK", kept |-> FALSE]
       [] n.k \in {"KEYVAL", "SECTION"} /\ n.name = "" -> [s |-> s, st |-> "CONTEXT_IN_WRONG_STATE", kept |-> TRUE]
       [] v.st = "OK" -> [s |-> ok(in(v.s)), st |-> "OK", kept |-> FALSE]
       [] v.st = "INVALID_CONTEXT" ->
            [s |-> [in(v.s) EXCEPT !.b[x].fin = TRUE, !.b[x].inv = TRUE], st |-> "INVALID_CONTEXT", kept |-> TRUE]
       [] v.st = "ELEMENTS_INVALID" /\ n.k = "SECTION" -> [s |-> ok(in(v.s)), st |-> "INVALID_CONTEXT", kept |-> FALSE]
       [] n.k = "RESTRICTION" -> [s |-> v.s, st |-> "WRONG_VALUE_TYPE", kept |-> TRUE]
       [] OTHER -> [s |-> un(v.s), st |-> v.st, kept |-> TRUE]

\* ---------------------------------------------------------------- destruction
RECURSIVE MKillAll(_, _)
MKillAll(s, q) ==
  IF q = <<>> THEN s
  ELSE LET n == s.b[Head(q)]
       IN MKillAll([s EXCEPT !.b[Head(q)].dead = TRUE], n.kids \o n.defs \o n.rest \o n.docs \o Tail(q))
MKill(s, x) == MKillAll(IF s.b[x].inp THEN Drop(s, x) ELSE s, <<x>>)

\* ---------------------------------------------------------------- beginning
MBegin(s, x, k) ==
  LET p == s.b[x]
      st == CASE k \in {"CONFIG", "MOLD"} -> "WRONG_CONTEXT"
              [] k \in {"KEYVAL", "SECTION"} -> IF p.k \in {"MOLD", "SECTION"} THEN "OK" ELSE "WRONG_CONTEXT"
              [] k = "DEFAULT" -> IF p.k # "KEYVAL" THEN "WRONG_CONTEXT" ELSE IF p.t = "UNKNOWN" THEN "INVALID_CONTEXT" ELSE "OK"
              [] k = "RESTRICTION" -> IF p.k \in {"KEYVAL", "SECTION"} THEN "OK" ELSE "WRONG_CONTEXT"
              [] k = "DOCUMENTATION" ->
                   IF p.k \notin {"MOLD", "KEYVAL", "SECTION", "RESTRICTION"} THEN "NO_CAN_DO"
                   ELSE IF p.k # "RESTRICTION" /\ p.docs # <<>> THEN "EXISTS" ELSE "OK"
              [] OTHER -> "WRONG_CONTEXT"
      n == BNode(k, x, p.root)
      n2 == CASE k = "DEFAULT" -> [n EXCEPT !.t = p.t, !.v = ZeroOf(p.t)]
              [] k = "DOCUMENTATION" -> [n EXCEPT !.t = "STRING"]
              [] OTHER -> n
  IN IF st = "OK" THEN [s |-> [s EXCEPT !.b = Append(@, n2)], st |-> "OK", id |-> Len(s.b) + 1]
     ELSE [s |-> s, st |-> st, id |-> 0]

\* ---------------------------------------------------------------- pieces
RtFits(s, x, rt) ==
  LET p == s.b[s.b[x].par]
  IN CASE s.b[x].k # "RESTRICTION" -> "WRONG_CONTEXT"
       [] s.b[x].fin -> "CONTEXT_IN_WRONG_STATE"
       [] p.k = "SECTION" /\ rt \in {"ENUM", "RANGE", "NUMERIC"} -> "WRONG_CONTEXT"
       [] rt = "ENUM" -> IF p.t = "ENUM" THEN "OK" ELSE "WRONG_VALUE_TYPE"
       [] rt \in {"RANGE", "NUMERIC"} -> IF p.t \in {"INTEGER", "FLOAT"} THEN "OK" ELSE "WRONG_VALUE_TYPE"
       [] rt = "UNKNOWN" -> "INVALID_ARGUMENT"
       [] OTHER -> "OK"
MSetValue(s, x, t, v) ==
  LET n == s.b[x]
  IN CASE n.k \notin {"DEFAULT", "DOCUMENTATION"} -> Ret(s, "WRONG_CONTEXT")
       [] t # n.t /\ ~(Textual(t) /\ Textual(n.t)) -> Ret(s, "WRONG_VALUE_TYPE")
       [] OTHER -> Ret([s EXCEPT !.b[x].v = v], "OK")
MGetValue(s, x, t) ==
  LET n == s.b[x]
      got == [s |-> s, r |-> [st |-> "OK", v |-> n.v.s]]
  IN CASE n.k = "DEFAULT" -> IF n.t = t THEN got ELSE Ret(s, "WRONG_VALUE_TYPE")
       [] n.k = "KEYVAL" /\ t = "STRING" /\ n.t # "STRING" -> Ret(s, "WRONG_VALUE_TYPE")
       [] OTHER -> Ret(s, "WRONG_CONTEXT")
MIntro(s, x, v) ==
  LET k == s.b[x].k
  IN CASE k = "MOLD" -> Ret(s, "WRONG_CONTEXT")
       [] k = "KEYVAL" -> Ret(s, "INTERNAL_ERROR")
       [] OTHER -> Ret([s EXCEPT !.b[x].intro = v], "OK")
MDepr(s, x, v) ==
  LET k == s.b[x].k
  IN CASE k \in {"MOLD", "DOCUMENTATION"} -> Ret(s, "WRONG_CONTEXT")
       [] k = "DEFAULT" -> Ret(s, "INTERNAL_ERROR")
       [] OTHER -> Ret([s EXCEPT !.b[x].depr = v], "OK")
MSetName(s, x, name) ==
  LET n == s.b[x]
  IN CASE n.k \notin {"KEYVAL", "SECTION"} -> Ret(s, "WRONG_CONTEXT")
       [] n.fin -> Ret(s, "CONTEXT_IN_WRONG_STATE")
       [] name = "" -> Ret(s, "INVALID_ARGUMENT")
       [] OTHER -> Ret([s EXCEPT !.b[x].name = name], "OK")
MSetType(s, x, t) ==
  IF s.b[x].k # "KEYVAL" THEN Ret(s, "WRONG_CONTEXT")
  ELSE IF t = "UNKNOWN" THEN Ret(s, "INVALID_ARGUMENT")
  ELSE Ret([s EXCEPT !.b[x].t = t], "OK")
MRSet(s, x, f, kinds, a, b) ==
  LET n == s.b[x]
  IN CASE n.k # "RESTRICTION" -> Ret(s, "WRONG_CONTEXT")
       [] n.rt \notin kinds -> Ret(s, "WRONG_VALUE_TYPE")
       [] f = "s" -> Ret([s EXCEPT !.b[x].s = a], "OK")
       [] f = "n" -> Ret([s EXCEPT !.b[x].n = a], "OK")
       [] OTHER -> Ret([s EXCEPT !.b[x].lo = a, !.b[x].hi = b], "OK")

\* One-call additions: begun, filled and finalized, or nothing at all (but for the mold's version, which
\* counts everything that was ever finalized).
Chain(s, x, steps(_, _), k, keepInvalid) ==
  LET g == MBegin(s, x, k)
      f == steps(g.s, g.id)
      z == MFinalize(f.s, g.id)
      none(t) == [s EXCEPT !.b[s.b[x].root].ver = t.b[s.b[x].root].ver]
  IN IF g.st # "OK" THEN Ret(s, g.st)
     ELSE IF f.r.st # "OK" THEN Ret(none(f.s), f.r.st)
     ELSE IF z.st = "OK" THEN Ret(z.s, "OK")
     ELSE IF z.st = "INVALID_CONTEXT" /\ keepInvalid THEN Ret(z.s, z.st)
     ELSE Ret(none(f.s), z.st)
Then(z, f(_)) == IF z.r.st = "OK" THEN f(z.s) ELSE z
Fine(s) == Ret(s, "OK")
AddDefault(s, x, t, v, intro) ==
  Chain(s, x, LAMBDA u, y : Then(MSetValue(u, y, t, v), LAMBDA w : MIntro(w, y, intro)), "DEFAULT", TRUE)
AddDoc(s, x, text) ==
  IF text = "" THEN Ret(s, "INVALID_ARGUMENT")
  ELSE Chain(s, x, LAMBDA u, y : MSetValue(u, y, "STRING", [s |-> text, n |-> 0, x |-> text]), "DOCUMENTATION", FALSE)
AddDocAt(s, x, text, intro) ==
  Chain(s, x, LAMBDA u, y : Then(MSetValue(u, y, "STRING", [s |-> text, n |-> 0, x |-> text]), LAMBDA w : MIntro(w, y, intro)), "DOCUMENTATION", FALSE)
SetRt(s, x, rt) == IF RtFits(s, x, rt) = "OK" THEN Ret([s EXCEPT !.b[x].rt = rt], "OK") ELSE Ret(s, RtFits(s, x, rt))
AddLimit(s, x, rt, n, intro) ==
  Chain(s, x, LAMBDA u, y : Then(SetRt(u, y, rt), LAMBDA w : MIntro([w EXCEPT !.b[y].n = n], y, intro)), "RESTRICTION", FALSE)
AddValueRest(s, x, c) ==
  Chain(s, x, LAMBDA u, y :
          Then(SetRt(u, y, c.rt), LAMBDA w :
            Then(MIntro([w EXCEPT !.b[y].n = IF c.rt = "NUMERIC" THEN c.n ELSE @, !.b[y].lo = IF c.rt = "RANGE" THEN c.lo ELSE @,
                           !.b[y].hi = IF c.rt = "RANGE" THEN c.hi ELSE @, !.b[y].s = IF c.rt = "ENUM" THEN c.s ELSE @], y, c.intro),
                 LAMBDA q : IF Has(c, "doc") THEN AddDoc(q, y, c.doc) ELSE Fine(q))), "RESTRICTION", FALSE)
AddKeyval(s, x, c) ==
  Chain(s, x, LAMBDA u, y :
          Then(MSetName(u, y, c.name), LAMBDA w :
            Then(MSetType(w, y, c.t), LAMBDA q :
              Then(AddDefault(q, y, c.t, c.v, c.intro), LAMBDA o : AddDoc(o, y, c.doc)))), "KEYVAL", TRUE)

\* ---------------------------------------------------------------- what can be observed
MLim(s, x) ==
  LET e == Abs(s, x)
  IN Limits(IF e.k = "KEYVAL" /\ e.defs = <<>> THEN [e EXCEPT !.k = "SECTION", !.intro = 0] ELSE e, s.b[s.b[x].root].ver)
DefText(e, v) == IF e.defs = <<>> THEN "ERR DEFAULT_MISSING" ELSE ActiveDefault(e, v).x
RDump(n, docs, vers) ==
  [rt |-> n.rt, intro |-> n.intro, depr |-> n.depr, docs |-> [i \in 1..Len(vers) |-> DocText(docs, vers[i])]]
  @@ (CASE n.rt = "RANGE" -> [lo |-> n.lo.s, hi |-> n.hi.s] [] n.rt = "ENUM" -> [s |-> n.s] [] OTHER -> [n |-> n.n.s])
RECURSIVE BDump(_, _, _)
BDump(s, x, vers) ==
  LET n == s.b[x]  e == Abs(s, x)
      nm == [name |-> IF n.name = "" THEN "(null)" ELSE n.name]
      docs == [docs |-> [i \in 1..Len(vers) |-> DocText(e.docs, vers[i])]]
      kids == [els |-> [i \in 1..Len(n.kids) |-> BDump(s, n.kids[i], vers)]]
      lim == MLim(s, x)
      rest == [rest |-> [i \in 1..Len(n.rest) |-> RDump(s.b[n.rest[i]], AbsDocs(s, n.rest[i]), vers)], min |-> lim.min, max |-> lim.max]
  IN CASE n.k = "KEYVAL" -> [k |-> n.k, intro |-> "WRONG_CONTEXT", depr |-> n.depr, t |-> n.t,
                              defs |-> [i \in 1..Len(e.defs) |-> [intro |-> e.defs[i].intro, v |-> e.defs[i].v.s]],
                              at |-> [i \in 1..Len(vers) |-> DefText(e, vers[i])]] @@ nm @@ docs @@ rest
       [] n.k = "SECTION" -> [k |-> n.k, intro |-> n.intro, depr |-> n.depr] @@ nm @@ docs @@ rest @@ kids
       [] OTHER -> [k |-> n.k] @@ docs @@ kids
RECURSIVE BShow(_, _)
BShow(s, x) ==
  LET n == s.b[x]
  IN IF n.k = "KEYVAL" THEN [k |-> n.k, name |-> n.name, t |-> n.t, v |-> "(err)"]
     ELSE [k |-> n.k, name |-> n.name, els |-> [i \in 1..Len(n.kids) |-> BShow(s, n.kids[i])]]

\* ---------------------------------------------------------------- commands
BBind(s, hd, x) == [s EXCEPT !.B = (hd :> x) @@ @]
BDrop(s, hd) == [s EXCEPT !.B = Without(@, hd)]
RECURSIVE BWalk(_, _, _)
BWalk(s, x, at) ==
  IF at = <<>> THEN x
  ELSE LET q == IF s.b[x].dead \/ s.b[x].k \notin {"MOLD", "SECTION"} THEN <<>> ELSE MNamed(s, x, at[1][1])
       IN IF Len(q) <= at[1][2] THEN 0 ELSE BWalk(s, q[at[1][2] + 1], Tail(at))
StepB(s, c, x) ==
  LET n == s.b[x]
      f == MFinalize(s, x)
      g == MBegin(s, x, c.k)
      box == n.k \in {"MOLD", "SECTION"}
      el == n.k \in {"KEYVAL", "SECTION"}
      show(q) == [i \in 1..Len(q) |-> BShow(s, q[i])]
      e == Abs(s, x)
      err(st) == "ERR " \o st
      q == MNamed(s, x, c.name)
      kv == AddKeyval(s, x, c)
      va == AddValueRest(s, x, c)
  IN CASE c.op = "begin" -> Ret(IF g.st = "OK" THEN BBind(g.s, c.as, g.id) ELSE s, g.st)
       [] c.op = "setname" -> MSetName(s, x, c.name)
       [] c.op = "getname" -> IF ~el THEN Ret(s, "WRONG_CONTEXT")
                              ELSE [s |-> s, r |-> [st |-> "OK", name |-> IF n.name = "" THEN "(null)" ELSE n.name, size |-> Len(n.name)]]
       [] c.op = "settype" -> MSetType(s, x, c.t)
       [] c.op = "gettype" -> IF n.k \in {"KEYVAL", "DEFAULT"} THEN [s |-> s, r |-> [st |-> "OK", t |-> n.t]] ELSE Ret(s, "WRONG_CONTEXT")
       [] c.op = "setv" -> IF c.t = "ANY" THEN Ret(s, "WRONG_CONTEXT") ELSE MSetValue(s, x, c.t, c.v)
       [] c.op = "getv" -> MGetValue(s, x, c.t)
       [] c.op = "intro" -> MIntro(s, x, c.ver)
       [] c.op = "depr" -> MDepr(s, x, c.ver)
       [] c.op = "getintro" -> IF n.k = "KEYVAL" THEN Ret(s, "WRONG_CONTEXT")
                               ELSE [s |-> s, r |-> [st |-> "OK", ver |-> IF n.k = "MOLD" THEN n.ver ELSE n.intro]]
       [] c.op = "getdepr" -> IF n.k \in {"KEYVAL", "SECTION", "RESTRICTION"} THEN [s |-> s, r |-> [st |-> "OK", ver |-> n.depr]]
                              ELSE Ret(s, "WRONG_CONTEXT")
       [] c.op = "rtype" -> SetRt(s, x, c.rt)
       [] c.op = "rnum" -> MRSet(s, x, "n", {"NUMERIC", "MIN", "MAX"}, c.n, c.n)
       [] c.op = "rrange" -> MRSet(s, x, "r", {"RANGE"}, c.lo, c.hi)
       [] c.op = "rstr" -> MRSet(s, x, "s", {"ENUM"}, c.s, c.s)
       [] c.op = "rget" ->
            IF n.k # "RESTRICTION" THEN Ret(s, "WRONG_CONTEXT")
            ELSE [s |-> s, r |-> [st |-> "OK", rt |-> n.rt,
                    s |-> IF n.rt = "ENUM" THEN n.s ELSE err("WRONG_VALUE_TYPE"),
                    n |-> IF n.rt \in {"NUMERIC", "MIN", "MAX"} THEN n.n.s ELSE err("WRONG_VALUE_TYPE"),
                    lo |-> IF n.rt = "RANGE" THEN n.lo.s ELSE err("WRONG_VALUE_TYPE"),
                    hi |-> IF n.rt = "RANGE" THEN n.hi.s ELSE err("WRONG_VALUE_TYPE")]]
       [] c.op = "rcoll" -> IF ~el THEN Ret(s, "WRONG_CONTEXT")
                            ELSE [s |-> s, r |-> [st |-> IF n.rest = <<>> THEN "NOT_EXIST" ELSE "OK",
                                                  d |-> [i \in 1..Len(n.rest) |-> s.b[n.rest[i]].rt]]]
       [] c.op = "defs" -> IF n.k # "KEYVAL" THEN Ret(s, "WRONG_CONTEXT")
                           ELSE [s |-> s, r |-> [st |-> "OK", d |-> [i \in 1..Len(e.defs) |-> e.defs[i].v.s]]]
       [] c.op = "adddef" -> AddDefault(s, x, c.t, c.v, c.intro)
       [] c.op = "adddeftext" ->
            IF n.k # "KEYVAL" THEN Ret(s, "WRONG_CONTEXT")
            ELSE CASE n.t = "UNKNOWN" -> Ret(s, "WRONG_CONTEXT")
                   [] n.t = "STRING" -> AddDefault(s, x, "STRING", c.v, c.intro)
                   [] n.t \in {"INTEGER", "FLOAT"} -> IF c.any[n.t].ok THEN AddDefault(s, x, n.t, c.any[n.t].v, c.intro) ELSE Ret(s, "INVALID_ARGUMENT")
                   [] OTHER -> Ret(s, "INTERNAL_ERROR")
       [] c.op = "addmin" -> AddLimit(s, x, "MIN", c.n, c.intro)
       [] c.op = "addmax" -> AddLimit(s, x, "MAX", c.n, c.intro)
       [] c.op = "rvadd" ->
            [s |-> IF Has(c, "as") /\ va.r.st = "OK" THEN BBind(va.s, c.as, va.s.b[x].rest[Len(va.s.b[x].rest)]) ELSE va.s, r |-> va.r @@ [out |-> Has(c, "as") /\ va.r.st = "OK"]]
       [] c.op = "addkv" ->
            [s |-> IF Has(c, "as") /\ kv.r.st \in {"OK", "INVALID_CONTEXT"}
                   THEN BBind(kv.s, c.as, kv.s.b[x].kids[Len(kv.s.b[x].kids)]) ELSE kv.s, r |-> kv.r]
       [] c.op = "adddoc" -> AddDoc(s, x, c.v)
       [] c.op = "adddocv" -> AddDocAt(s, x, c.v, c.intro)
       [] c.op = "getdoc" ->
            IF n.k \in {"DEFAULT", "DOCUMENTATION"} THEN Ret(s, "WRONG_CONTEXT")
            ELSE DocAnswer(s, AbsDocs(s, x), c.ver)
       [] c.op = "getdef" ->
            IF n.k = "DEFAULT" THEN [s |-> s, r |-> [st |-> "OK", text |-> n.v.x]]
            ELSE IF n.k # "KEYVAL" THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF e.defs = <<>> THEN Ret(s, "DEFAULT_MISSING")
            ELSE [s |-> s, r |-> [st |-> "OK", text |-> ActiveDefault(e, c.ver).x]]
       [] c.op = "limits" -> IF ~el THEN Ret(s, "WRONG_CONTEXT")
                             ELSE [s |-> s, r |-> [st |-> "OK", min |-> MLim(s, x).min, max |-> MLim(s, x).max]]
       [] c.op = "fin" -> [s |-> IF f.kept THEN f.s ELSE BDrop(f.s, c.x), r |-> [st |-> f.st, kept |-> f.kept]]
       [] c.op = "finkeep" -> Ret(f.s, f.st)
       [] c.op = "ctxvalid" -> Ret(s, IF n.inv THEN "INVALID_CONTEXT" ELSE "OK")
       [] c.op = "ctxtype" -> [s |-> s, r |-> [st |-> "OK", k |-> n.k]]
       [] c.op = "setver" -> IF n.k # "MOLD" THEN Ret(s, "WRONG_CONTEXT") ELSE Ret([s EXCEPT !.b[x].ver = c.ver], "OK")
       [] c.op = "getver" -> IF n.k # "MOLD" THEN Ret(s, "WRONG_CONTEXT") ELSE [s |-> s, r |-> [st |-> "OK", ver |-> n.ver]]
       [] c.op = "find" ->
            IF ~box THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF Len(q) <= c.idx THEN Ret(s, "NOT_EXIST")
            ELSE IF Has(c, "as") THEN Ret(BBind(s, c.as, q[c.idx + 1]), "OK")
            ELSE [s |-> s, r |-> [st |-> "OK", d |-> BShow(s, q[c.idx + 1])]]
       [] c.op = "finds" ->
            IF ~box THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF q = <<>> THEN Ret(s, "NOT_EXIST") ELSE [s |-> s, r |-> [st |-> "OK", size |-> Len(q), d |-> show(q)]]
       [] c.op = "elems" ->
            IF ~box THEN Ret(s, "WRONG_CONTEXT") ELSE [s |-> s, r |-> [st |-> "OK", size |-> Len(n.kids), d |-> show(n.kids)]]
       [] c.op = "xdump" -> [s |-> s, r |-> [st |-> "OK", d |-> BDump(s, x, c.vers)]]

MStep(s, c) ==
  LET base == IF ~Has(c, "x") THEN 0 ELSE IF c.x \in DOMAIN s.B THEN s.B[c.x] ELSE IF c.x \in DOMAIN s.mm THEN s.mm[c.x] ELSE 0
      x == IF base # 0 /\ Has(c, "at") THEN BWalk(s, base, c.at) ELSE base
      v == MValidate(s, x)
      inv == MInvalid(s, s.mm[c.m])
      all == (IF s.b[s.mm[c.m]].inv THEN <<"">> ELSE <<>>) \o inv
  IN CASE c.op \in {"reset", "end"} -> [Step(s, c) EXCEPT !.s = M0]
       [] c.op = "mbegin" ->
            Ret(BBind([s EXCEPT !.b = Append(@, BNode("MOLD", 0, Len(s.b) + 1))], c.as, Len(s.b) + 1), "OK")
       [] c.op = "mfin" ->
            IF s.b[x].k # "MOLD" THEN [s |-> s, r |-> [st |-> "WRONG_CONTEXT", kept |-> TRUE, mold |-> FALSE]]
            ELSE Refresh([s |-> [BDrop(v.s, c.x) EXCEPT !.b[x].fin = TRUE, !.mm = (c.m :> x) @@ @, !.molds = (c.m :> [els |-> <<>>, docs |-> <<>>, ver |-> 0]) @@ @],
                          r |-> [st |-> v.st, kept |-> FALSE, mold |-> TRUE]])
       [] c.op \in {"mdump", "mvalid"} /\ c.m \in DOMAIN s.mm ->
            IF c.op = "mdump" THEN [s |-> s, r |-> [st |-> "OK", d |-> BDump(s, s.mm[c.m], c.vers) @@ [ver |-> s.b[s.mm[c.m]].ver]]]
            ELSE [s |-> s, r |-> [st |-> IF all = <<>> THEN "OK" ELSE "INVALID_CONTEXT", col |-> all]]
       [] base # 0 /\ c.op # "compare" ->
            IF x = 0 THEN Ret(s, "HARNESS nopath")
            ELSE IF c.op = "put" THEN Ret(BDrop(s, c.x), "OK")
            ELSE IF c.op = "destroy" THEN Refresh(Ret(IF s.b[x].dead THEN BDrop(s, c.x) ELSE MKill(BDrop(s, c.x), x), "OK"))
            ELSE IF c.op = "ctxtype" THEN StepB(s, c, x)
            ELSE IF c.op = "vtype" THEN [s |-> s, r |-> [st |-> "OK", t |-> IF s.b[x].dead \/ s.b[x].k \notin {"KEYVAL", "DEFAULT"} THEN "UNKNOWN" ELSE s.b[x].t]]
            ELSE IF BGone(s, x) THEN Ret(s, "DESTROYED_CONTEXT")
            ELSE Refresh(StepB(s, c, x))
       [] OTHER -> Step(s, c)
=============================================================================
