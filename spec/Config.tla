------------------------------- MODULE Config -------------------------------
(* The config machine: contexts under construction, finalized configs, the   *)
(* references a caller holds on them, queries, collections, comparison and   *)
(* update.  Step(s, c) is the machine: the state after public call c and     *)
(* what that call reports.                                                   *)
(*   s.molds : handle -> mold (Base)          s.h : heap, Seq(node)          *)
(*   s.X     : context handle -> node id      s.C : config handle -> node id *)
(*   s.K     : collection handle -> [items, it]   s.U : update handle -> ..  *)
EXTENDS Base

Empty == [x \in {} |-> 0]
S0 == [molds |-> Empty, h |-> <<>>, X |-> Empty, C |-> Empty, K |-> Empty, U |-> Empty]

Node(k, par, root, mh) ==
  [k |-> k, name |-> "", t |-> "UNKNOWN", v |-> ZeroOf("STRING"), mh |-> mh, mp |-> <<>>,
   me |-> (k = "CONFIG"), par |-> par, root |-> root, fin |-> FALSE, inv |-> FALSE, fatal |-> FALSE,
   dead |-> FALSE, inp |-> FALSE, kids |-> <<>>, ver |-> 1000]

Cont == {"CONFIG", "SECTION"}
ElOf(s, x) == ElAt(s.molds[s.h[x].mh].els, s.h[x].mp)           \* mold equivalent of a non-root node
MoldEls(s, x) == IF s.h[x].me THEN ElsAt(s.molds[s.h[x].mh], s.h[x].mp) ELSE <<>>
CfgVer(s, x) == s.h[s.h[x].root].ver
Named(s, x, name) == SelectSeq(s.h[x].kids, LAMBDA k : s.h[k].name = name)
Count(s, x, name) == Len(Named(s, x, name))
LimOf(s, x) == Limits(ElOf(s, x), CfgVer(s, x))

\* A context is gone once it, or any ancestor it hangs below, was destroyed.
RECURSIVE Gone(_, _)
Gone(s, x) == s.h[x].dead \/ (s.h[x].par # 0 /\ Gone(s, s.h[x].par))

Textual(t) == t \in {"STRING", "ENUM"}
R(st) == [st |-> st]
Has(c, f) == f \in DOMAIN c
Ret(s, st) == [s |-> s, r |-> R(st)]

\* ---------------------------------------------------------------- naming
SetName(s, x, name) ==
  LET n == s.h[x]  p == s.h[n.par]
      els == MoldEls(s, n.par)
      i == IdxByName(els, name)
      miss == [s EXCEPT !.h[x].inv = TRUE, !.h[x].name = name]
      t2 == IF n.k = "KEYVAL" THEN els[i].t ELSE "UNKNOWN"
      s1 == [s EXCEPT !.h[x].me = TRUE, !.h[x].mp = p.mp \o <<i>>,
                      !.h[x].t = t2, !.h[x].v = IF n.t = t2 \/ (Textual(n.t) /\ Textual(t2)) THEN @ ELSE ZeroOf(t2)]
  IN CASE n.k \notin {"KEYVAL", "SECTION"} -> Ret(s, "WRONG_CONTEXT")
       [] n.fin -> Ret(s, "CONTEXT_IN_WRONG_STATE")
       [] name = "" -> Ret(s, "INVALID_ARGUMENT")
       [] i = 0 -> Ret(miss, "NOT_EXIST")
       [] els[i].k # n.k -> Ret(s, "WRONG_CONTEXT")
       [] OTHER ->
            IF p.fin /\ ~Fits(LimOf(s1, x).max, Count(s1, n.par, name))
            THEN Ret(s1, "RESTRICTION_VIOLATED")
            ELSE Ret([s1 EXCEPT !.h[x].name = name], "OK")

\* ---------------------------------------------------------------- values
SetValue(s, x, t, v) ==
  LET n == s.h[x]
      store == [s EXCEPT !.h[x].t = t, !.h[x].v = v]
      mt == ElOf(s, x).t
      ok == Allowed(ElOf(s, x), CfgVer(s, x), v)
  IN CASE n.k # "KEYVAL" -> Ret(s, "WRONG_CONTEXT")
       [] ~n.fin /\ n.name = "" -> Ret(s, "MOLD_MISSING")
       [] ~n.fin /\ ~n.me -> Ret(store, "INVALID_CONTEXT")
       [] ~n.fin /\ mt # t -> Ret([store EXCEPT !.h[x].inv = TRUE], "INVALID_CONTEXT")
       [] ~n.fin /\ ~ok -> Ret([store EXCEPT !.h[x].inv = TRUE], "INVALID_CONTEXT")
       [] n.fin /\ n.inv -> Ret(store, "INVALID_CONTEXT")
       [] n.fin /\ n.t # t -> Ret(s, "WRONG_VALUE_TYPE")
       [] n.fin /\ ~ok -> Ret(s, "RESTRICTION_VIOLATED")
       [] OTHER -> Ret(store, "OK")

\* A value given as text: it becomes a value of the keyval's own type.
SetText(s, x, c) ==
  LET t == s.h[x].t
  IN CASE s.h[x].k # "KEYVAL" -> Ret(s, "WRONG_CONTEXT")
       [] t \in {"STRING", "ENUM"} -> SetValue(s, x, t, c.v)
       [] t \in {"BOOLEAN", "INTEGER", "FLOAT"} ->
            IF c.any[t].ok THEN SetValue(s, x, t, c.any[t].v) ELSE Ret(s, "INVALID_ARGUMENT")
       [] OTHER -> Ret(s, "INTERNAL_ERROR")

GetValue(s, x, t) ==
  LET n == s.h[x]
  IN CASE n.k # "KEYVAL" -> Ret(s, "WRONG_CONTEXT")
       [] ~n.me /\ t # "STRING" -> Ret(s, "MOLD_MISSING")
       [] n.t # t -> Ret(s, "WRONG_VALUE_TYPE")
       [] OTHER -> [s |-> s, r |-> [st |-> "OK", v |-> n.v.s]]

\* ---------------------------------------------------------------- validity (C05)
LegalName(nm) == \A i \in 1..Len(nm) : SubSeq(nm, i, i) \in LegalChars
CountsOk(s, x) ==
  \A i \in 1..Len(MoldEls(s, x)) :
     LET e == MoldEls(s, x)[i]  l == Limits(e, CfgVer(s, x))  c == Count(s, x, e.name)
     IN c >= l.min /\ ~(l.max = -1 /\ c > 0) /\ ~(l.max > 0 /\ c > l.max)
Overfull(s, x) ==           \* a context about to be added to a finalized parent that has no room
  ~s.h[x].fin /\ s.h[s.h[x].par].fin /\ ~Fits(LimOf(s, x).max, Count(s, s.h[x].par, s.h[x].name))

\* What is wrong with a keyval or section on its own, "OK" when nothing is.
KeyvalFault(s, x) ==
  LET n == s.h[x]
  IN CASE ~n.me -> "MOLD_MISSING"
       [] Overfull(s, x) -> "RESTRICTION_VIOLATED"
       [] ElOf(s, x).t # n.t -> "WRONG_VALUE_TYPE"
       [] ~Allowed(ElOf(s, x), CfgVer(s, x), n.v) -> "RESTRICTION_VIOLATED"
       [] ~LegalName(n.name) -> "RESTRICTION_VIOLATED"
       [] OTHER -> "OK"
SectionFault(s, x) ==
  LET n == s.h[x]
  IN CASE ~LegalName(n.name) -> "RESTRICTION_VIOLATED"
       [] ~n.me -> "MOLD_MISSING"
       [] Overfull(s, x) -> "RESTRICTION_VIOLATED"
       [] ~CountsOk(s, x) -> "RESTRICTION_VIOLATED"
       [] OTHER -> "OK"

\* Validate(s, x) = [s, st]: sets the invalid marks of x and everything below it.
\* A fatal mark found below stops the walk and is reported upwards.
RECURSIVE Validate(_, _), ValidateKids(_, _, _, _)
ValidateKids(s, q, i, acc) ==
  IF i > Len(q) THEN [s |-> s, st |-> acc]
  ELSE LET v == Validate(s, q[i])
       IN IF v.st = "FATAL_CONTEXT" THEN v
          ELSE ValidateKids(v.s, q, i + 1, IF v.st = "OK" THEN acc ELSE "ELEMENTS_INVALID")
Validate(s, x) ==
  LET n == s.h[x]
      own == CASE n.k = "KEYVAL" -> KeyvalFault(s, x)
               [] n.k = "SECTION" -> SectionFault(s, x)
               [] OTHER -> IF CountsOk(s, x) THEN "OK" ELSE "RESTRICTION_VIOLATED"
      s0 == [s EXCEPT !.h[x].inv = FALSE]
      kids == IF n.k = "KEYVAL" THEN [s |-> s0, st |-> "OK"] ELSE ValidateKids(s0, n.kids, 1, "OK")
      st == IF kids.st = "FATAL_CONTEXT" THEN kids.st ELSE IF own # "OK" THEN own ELSE kids.st
      mark == [kids.s EXCEPT !.h[x].inv = TRUE]
  IN IF n.fatal
     THEN [s |-> [s EXCEPT !.h[x].inv = TRUE], st |-> IF n.fin THEN "FATAL_CONTEXT" ELSE "INVALID_CONTEXT"]
     ELSE IF st = "OK" THEN [s |-> kids.s, st |-> "OK"]
     ELSE IF n.par # 0 /\ s.h[n.par].fin THEN [s |-> mark, st |-> st]
     ELSE IF st = "ELEMENTS_INVALID"
          THEN [s |-> kids.s, st |-> IF n.fin THEN st ELSE "INVALID_CONTEXT"]
     ELSE [s |-> mark, st |-> IF n.fin THEN st ELSE "INVALID_CONTEXT"]

\* Where an element sits, as the query it reports for itself (C07).
RECURSIVE RootName(_, _), Placed(_, _)
\* Part of its parent, and so on up to the config.
Placed(s, x) == s.h[x].par = 0 \/ (s.h[x].inp /\ Placed(s, s.h[x].par))
RootName(s, x) ==
  IF ~Placed(s, x) THEN "ERR NOT_EXIST" ELSE
  LET n == s.h[x]  q == Named(s, n.par, n.name)
      i == CHOOSE j \in 1..Len(q) : q[j] = x
      own == IF i = 1 THEN n.name ELSE n.name \o "@" \o ToString(i - 1)
  IN IF s.h[n.par].par = 0 THEN own ELSE RootName(s, n.par) \o "." \o own

RECURSIVE InvalidBelow(_, _)
InvalidBelow(s, x) ==
  Flat([i \in 1..Len(s.h[x].kids) |->
     LET k == s.h[x].kids[i]
     IN (IF s.h[k].inv THEN <<RootName(s, k)>> ELSE <<>>)
        \o (IF s.h[k].k = "SECTION" THEN InvalidBelow(s, k) ELSE <<>>)])
InvalidList(s, x) == (IF s.h[x].inv THEN <<"">> ELSE <<>>) \o InvalidBelow(s, x)

\* ---------------------------------------------------------------- finalizing
\* [s, st, kept]: kept says whether the caller still owns the context.
Finalize(s, x) ==
  LET n == s.h[x]
      v == Validate(s, x)
      add(t) == [t EXCEPT !.h[x].fin = TRUE, !.h[x].inp = TRUE, !.h[n.par].kids = @ \o <<x>>]
  IN CASE n.k \in {"CONFIG"} -> [s |-> s, st |-> "WRONG_CONTEXT", kept |-> TRUE]
       [] n.fin -> [s |-> s, st |-> "CONTEXT_IN_WRONG_STATE", kept |-> TRUE]
       [] n.name = "" -> [s |-> s, st |-> "CONTEXT_IN_WRONG_STATE", kept |-> TRUE]
       [] v.st = "OK" -> [s |-> add(v.s), st |-> "OK", kept |-> FALSE]
       [] v.st = "INVALID_CONTEXT" ->
            [s |-> [add(v.s) EXCEPT !.h[x].inv = TRUE], st |-> "INVALID_CONTEXT", kept |-> TRUE]
       [] v.st = "ELEMENTS_INVALID" /\ n.k = "SECTION" ->
            [s |-> add(v.s), st |-> "INVALID_CONTEXT", kept |-> FALSE]
       [] OTHER -> [s |-> v.s, st |-> v.st, kept |-> TRUE]

\* ---------------------------------------------------------------- references and destruction (C10)
Holds(f, x) == Cardinality({k \in DOMAIN f : f[k] = x})
Refs(s, x) ==
  Holds(s.X, x) + Holds(s.C, x) + (IF s.h[x].inp /\ ~s.h[x].dead THEN 1 ELSE 0)
  + Cardinality({y \in 1..Len(s.h) : s.h[y].par = x /\ ~s.h[y].dead})
  + Cardinality(UNION {{<<k, i>> : i \in {j \in 1..Len(s.K[k].items) : s.K[k].items[j] = x}} : k \in DOMAIN s.K})
RECURSIVE KillAll(_, _)
KillAll(s, q) ==
  IF q = <<>> THEN s
  ELSE LET x == Head(q)
           s1 == KillAll(s, s.h[x].kids)
       IN KillAll([s1 EXCEPT !.h[x].dead = TRUE, !.h[x].kids = <<>>], Tail(q))
Kill(s, x) ==
  LET p == s.h[x].par
      s1 == IF s.h[x].inp /\ p # 0 THEN [s EXCEPT !.h[p].kids = SelectSeq(@, LAMBDA y : y # x)] ELSE s
  IN KillAll(s1, <<x>>)
Put(s, hd) ==               \* the caller lets go of handle hd
  LET x == s.X[hd]
      s1 == [s EXCEPT !.X = Without(@, hd)]
  IN IF ~s.h[x].dead /\ Refs(s, x) = 1 THEN Kill(s1, x) ELSE s1

\* ---------------------------------------------------------------- generation (C02)
\* Append to container x the minimal content of its mold equivalent at version ver, element by
\* element; it stops at the first one that is refused or not valid, which is then not kept.
RECURSIVE Gen(_, _, _, _), GenN(_, _, _, _, _)
NewChild(s, x, k, name) ==
  LET id == Len(s.h) + 1
      s1 == [s EXCEPT !.h = Append(@, Node(k, x, s.h[x].root, s.h[x].mh))]
  IN [s |-> SetName(s1, id, name).s, id |-> id, st |-> SetName(s1, id, name).r.st]
GenN(s, x, ver, e, cnt) ==
  LET c == NewChild(s, x, e.k, e.name)
      f == IF e.k = "KEYVAL" THEN [c.s EXCEPT !.h[c.id].v = ActiveDefault(e, ver)]
           ELSE Gen(c.s, c.id, ver, 1).s
      z == Finalize(f, c.id)
  IN IF cnt = 0 THEN [s |-> s, st |-> "OK"]
     ELSE IF c.st # "OK" THEN [s |-> s, st |-> c.st]
     ELSE IF e.k = "KEYVAL" /\ e.defs = <<>> THEN [s |-> s, st |-> "DEFAULT_MISSING"]
     ELSE IF z.st = "OK" THEN GenN(z.s, x, ver, e, cnt - 1)
     ELSE [s |-> IF z.kept THEN s ELSE z.s, st |-> z.st]
Gen(s, x, ver, i) ==
  IF i > Len(MoldEls(s, x)) THEN [s |-> s, st |-> "OK"]
  ELSE LET e == MoldEls(s, x)[i]
           g == GenN(s, x, ver, e, Limits(e, ver).min)
       IN IF g.st = "OK" THEN Gen(g.s, x, ver, i + 1) ELSE g

NewConfig(s, mh, ver) ==
  LET id == Len(s.h) + 1
  IN [s |-> [s EXCEPT !.h = Append(@, [Node("CONFIG", 0, id, mh) EXCEPT !.ver = ver])], id |-> id]
Generate(s, mh, ver, hd) ==
  LET mv == s.molds[mh].ver
      v == IF ver = NoVer THEN mv ELSE ver
      b == NewConfig(s, mh, v)
      g == Gen(b.s, b.id, v, 1)
      z == Validate(g.s, b.id)
  IN IF v > mv THEN Ret(s, "CONFLICTING_SEMVER")
     ELSE Ret([z.s EXCEPT !.h[b.id].fin = TRUE, !.C = (hd :> b.id) @@ @],
              IF z.st = "OK" THEN "OK" ELSE "INVALID_CONTEXT")

\* ---------------------------------------------------------------- queries (C07)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal(ch) == CHOOSE d \in 0..9 : ToString(d) = ch
FindCh(q, ch, from) == LET I == {i \in from..Len(q) : SubSeq(q, i, i) = ch} IN IF I = {} THEN 0 ELSE MinOf(I)
RECURSIVE NumOf(_, _)
NumOf(q, acc) == IF q = "" THEN acc
                 ELSE IF acc > 1000000 THEN 1000000
                 ELSE NumOf(SubSeq(q, 2, Len(q)), acc * 10 + DigitVal(SubSeq(q, 1, 1)))
AllDigits(q) == q # "" /\ \A i \in 1..Len(q) : SubSeq(q, i, i) \in Digits
RECURSIVE Unpad(_)
Unpad(q) == IF q # "" /\ SubSeq(q, 1, 1) = " " THEN Unpad(SubSeq(q, 2, Len(q))) ELSE q
\* One step of a query: [bad, name, idx, rest, last].
Token(q) ==
  LET d == FindCh(q, ".", 1)
      seg == IF d = 0 THEN q ELSE SubSeq(q, 1, d - 1)
      a == FindCh(seg, "@", 1)
      nm == IF a = 0 THEN seg ELSE SubSeq(seg, 1, a - 1)
      ix == IF a = 0 THEN "0" ELSE SubSeq(seg, a + 1, Len(seg))
      iz == Unpad(ix)
      neg == Len(iz) > 1 /\ SubSeq(iz, 1, 1) = "-"
      dig == IF neg \/ (Len(iz) > 1 /\ SubSeq(iz, 1, 1) = "+") THEN SubSeq(iz, 2, Len(iz)) ELSE iz
  IN [bad |-> d = 1 \/ a = 1 \/ ~AllDigits(dig), name |-> nm, last |-> d = 0,
      idx |-> IF ~AllDigits(dig) THEN 0 ELSE IF neg THEN -NumOf(dig, 0) ELSE NumOf(dig, 0),
      rest |-> IF d = 0 THEN "" ELSE SubSeq(q, d + 1, Len(q))]
Nth(s, x, name, idx) ==
  LET q == Named(s, x, name) IN IF name = "" \/ idx < 0 \/ idx >= Len(q) THEN 0 ELSE q[idx + 1]
RECURSIVE Resolve(_, _, _)
Resolve(s, x, q) ==         \* [st, id]
  LET t == Token(q)  k == Nth(s, x, t.name, t.idx)
  IN IF t.bad THEN [st |-> "INVALID_ARGUMENT", id |-> 0]
     ELSE IF s.h[x].k = "KEYVAL" THEN [st |-> "WRONG_CONTEXT", id |-> 0]
     ELSE IF k = 0 THEN [st |-> "NOT_EXIST", id |-> 0]
     ELSE IF t.last THEN [st |-> "OK", id |-> k]
     ELSE Resolve(s, k, t.rest)
Query(s, x, q) ==
  IF s.h[x].k = "KEYVAL" THEN [st |-> "WRONG_CONTEXT", id |-> 0]
  ELSE IF Len(q) >= 2048 THEN [st |-> "INSUFFICIENT_RESOURCES", id |-> 0]
  ELSE Resolve(s, x, q)

\* ---------------------------------------------------------------- setting by query (C08)
\* Ensure(s, x, q, anc, t, v): below x, create what is missing on the way to q and set the leaf.
\* anc is the first section created (0: none yet); it is attached to its parent only at the end.
RECURSIVE Ensure(_, _, _, _, _, _)
SetLeaf(s, x, name, idx, t, v) ==
  LET have == Nth(s, x, name, idx)
      els == MoldEls(s, x)
      i == IdxByName(els, name)
      lim == Limits(els[i], CfgVer(s, x))
      c == NewChild(s, x, "KEYVAL", name)
      w == SetValue(c.s, c.id, t, v)
      z == Finalize(w.s, c.id)
  IN CASE have # 0 -> SetValue(s, have, t, v)
       [] have = 0 /\ i = 0 -> Ret(s, "MOLD_MISSING")
       [] have = 0 /\ i # 0 /\ lim.max # 0 /\ lim.max <= idx -> Ret(s, "RESTRICTION_VIOLATED")
       [] have = 0 /\ i # 0 /\ idx # Count(s, x, name) -> Ret(s, "CONFLICT")
       [] have = 0 /\ i # 0 /\ els[i].k # "KEYVAL" -> Ret(s, "CONFLICT")
       [] OTHER ->
            IF c.st # "OK" THEN Ret(s, c.st)
            ELSE IF els[i].t # t THEN Ret(s, "WRONG_VALUE_TYPE")
            ELSE IF w.r.st # "OK" THEN Ret(s, w.r.st)
            ELSE IF z.st # "OK" THEN Ret(s, z.st) ELSE Ret(z.s, "OK")
Ensure(s, x, q, anc, t, v) ==
  LET tk == Token(q)
      have == Nth(s, x, tk.name, tk.idx)
      els == MoldEls(s, x)
      i == IdxByName(els, tk.name)
      lim == Limits(els[i], CfgVer(s, x))
      c == NewChild(s, x, "SECTION", tk.name)
      g == Gen(c.s, c.id, CfgVer(s, x), 1)
      z == Finalize(g.s, c.id)
      down(u, y, a) == Ensure(u, y, tk.rest, a, t, v)
  IN CASE tk.bad -> Ret(s, "INVALID_ARGUMENT")
       [] ~tk.bad /\ tk.last ->
            LET l == SetLeaf(s, x, tk.name, tk.idx, t, v)
                f == Finalize(l.s, anc)
            IN IF l.r.st # "OK" \/ anc = 0 THEN l
               ELSE IF f.st = "OK" THEN Ret(f.s, "OK") ELSE Ret(s, f.st)
       [] ~tk.bad /\ ~tk.last /\ have # 0 ->
            IF s.h[have].k # "SECTION" THEN Ret(s, "CONFLICT") ELSE down(s, have, anc)
       [] OTHER ->
            IF tk.idx # Count(s, x, tk.name) THEN Ret(s, "NO_CAN_DO")
            ELSE IF i = 0 THEN Ret(s, "MOLD_MISSING")
            ELSE IF els[i].k # "SECTION" THEN Ret(s, "CONFLICT")
            ELSE IF lim.max # 0 /\ lim.max <= tk.idx THEN Ret(s, "RESTRICTION_VIOLATED")
            ELSE IF c.st # "OK" THEN Ret(s, c.st)
            ELSE IF g.st # "OK" THEN Ret(s, g.st)
            ELSE IF anc = 0 THEN down(g.s, c.id, c.id)
            ELSE IF z.st # "OK" THEN Ret(s, "INTERNAL_ERROR")
            ELSE down(z.s, c.id, anc)
SetByQuery(s, x, q, t, v) ==
  LET f == Query(s, x, q)
      e == Ensure(s, x, q, 0, t, v)
  IN CASE f.st = "OK" -> SetValue(s, f.id, t, v)
       [] f.st = "NOT_EXIST" -> IF e.r.st = "OK" THEN e ELSE Ret(s, e.r.st)
       [] OTHER -> Ret(s, f.st)

\* ---------------------------------------------------------------- what can be observed
Inv(s, x, fl) == IF fl THEN [inv |-> IF s.h[x].inv THEN 1 ELSE 0] ELSE Empty
RECURSIVE Dump(_, _, _)
Dump(s, x, fl) ==
  LET n == s.h[x]
      kids == [i \in 1..Len(n.kids) |-> Dump(s, n.kids[i], fl)]
      nm == IF n.name = "" THEN "(null)" ELSE n.name
  IN CASE n.k = "KEYVAL" -> [k |-> n.k, name |-> nm, t |-> n.t,
                             v |-> IF n.me \/ n.t = "STRING" THEN n.v.s ELSE "(err)"] @@ Inv(s, x, fl)
       [] n.k = "SECTION" -> [k |-> n.k, name |-> nm, els |-> kids] @@ Inv(s, x, fl)
       [] OTHER -> [ver |-> n.ver, els |-> kids] @@ Inv(s, x, fl)

\* ---------------------------------------------------------------- documentation (C27)
DocText(docs, ver) == IF docs = <<>> THEN "ERR INTERNAL_ERROR" ELSE docs[ActiveIdx(docs, ver)].v
DocAnswer(s, docs, ver) ==
  IF docs = <<>> THEN Ret(s, "INTERNAL_ERROR") ELSE [s |-> s, r |-> [st |-> "OK", doc |-> DocText(docs, ver)]]

\* ---------------------------------------------------------------- comparison (C12)
\* One entry per line of the report: the name that line mentions, "" when it needs to name none.
SameValue(t1, v1, t2, v2) ==
  /\ t1 = t2
  /\ IF t1 = "UNKNOWN" THEN TRUE ELSE IF Textual(t1) THEN v1.x = v2.x ELSE v1.s = v2.s
Shown(s, x) == IF s.h[x].k = "CONFIG" THEN "" ELSE s.h[x].name
RECURSIVE Uniq(_)
Uniq(q) == IF q = <<>> THEN <<>>
           ELSE <<Head(q)>> \o Uniq(SelectSeq(Tail(q), LAMBDA n : n # Head(q)))
NamesIn(s, x) == [i \in 1..Len(s.h[x].kids) |-> s.h[s.h[x].kids[i]].name]
RECURSIVE Diff(_, _, _)
DiffNamed(s, x, y, nm) ==
  LET p == Named(s, x, nm)  q == Named(s, y, nm)
      m == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
      pairs == Flat([i \in 1..m |-> Diff(s, p[i], q[i])])
      more == IF Len(p) > Len(q) THEN Len(p) - Len(q) ELSE Len(q) - Len(p)
  IN IF q = <<>> THEN <<nm>> ELSE pairs \o [i \in 1..more |-> nm]
Diff(s, x, y) ==
  LET m == s.h[x]  n == s.h[y]
      names == Uniq(NamesIn(s, x))
      extra == SelectSeq(NamesIn(s, y), LAMBDA nm : nm \notin Range(names))
  IN IF m.k # n.k \/ m.t # n.t THEN <<Shown(s, x)>>
     ELSE IF m.k = "KEYVAL" THEN IF SameValue(m.t, m.v, n.t, n.v) THEN <<>> ELSE <<Shown(s, x)>>
     ELSE Flat([i \in 1..Len(names) |-> DiffNamed(s, x, y, names[i])]) \o extra
DiffAnswer(q) == [st |-> IF q = <<>> THEN "OK" ELSE "CONFLICT", n |-> Len(q), rep |-> q # <<>>, mention |-> q]

\* Molds: elements, types, documentation, defaults and restrictions, in their order.
RECURSIVE DiffQ(_, _, _, _)
DiffQ(p, q, Same(_, _), i) ==
  IF i > Len(p) /\ i > Len(q) THEN <<>>
  ELSE IF i > Len(p) \/ i > Len(q) THEN <<"">>
  ELSE IF Same(p[i], q[i]) THEN DiffQ(p, q, Same, i + 1) ELSE <<"">>
DiffDocs(p, q) == DiffQ(p, q, LAMBDA a, b : a = b, 1)
RECURSIVE DiffRest(_, _, _)
DiffRest(p, q, i) ==
  LET a == p[i]  b == q[i]  d == DiffDocs(a.docs, b.docs)
  IN IF i > Len(p) /\ i > Len(q) THEN <<>>
     ELSE IF i > Len(p) \/ i > Len(q) THEN <<"">>
     ELSE IF a.intro # b.intro \/ a.depr # b.depr \/ a.rt # b.rt THEN <<"">>
     ELSE IF [a EXCEPT !.docs = <<>>] # [b EXCEPT !.docs = <<>>] THEN d \o <<"">>
     ELSE d \o DiffRest(p, q, i + 1)
RECURSIVE DiffEl(_, _), DiffEls(_, _, _)
DiffEl(a, b) ==
  IF a.k # b.k \/ a.t # b.t THEN <<a.name>>
  ELSE DiffDocs(a.docs, b.docs)
       \o (IF a.k = "KEYVAL" THEN DiffQ(a.defs, b.defs, LAMBDA d, e : d.intro = e.intro /\ SameValue(a.t, d.v, b.t, e.v), 1) ELSE <<>>)
       \o (IF a.k = "MOLD" THEN <<>> ELSE DiffRest(a.rest, b.rest, 1))
       \o (IF a.k = "KEYVAL" THEN <<>> ELSE DiffEls(a.els, b.els, 1))
DiffEls(p, q, i) ==
  IF i > Len(p)
  THEN LET r == SelectSeq(q, LAMBDA e : IdxByName(p, e.name) = 0) IN [j \in 1..Len(r) |-> r[j].name]
  ELSE LET j == IdxByName(q, p[i].name)
       IN (IF j = 0 THEN <<p[i].name>> ELSE DiffEl(p[i], q[j])) \o DiffEls(p, q, i + 1)
RECURSIVE ElByPath(_, _)
ElByPath(e, at) == IF at = <<>> THEN e ELSE ElByPath(e.els[IdxByName(e.els, at[1][1])], Tail(at))
MoldEl(s, hd, at) ==
  ElByPath([k |-> "MOLD", name |-> "", t |-> "UNKNOWN", docs |-> s.molds[hd].docs, els |-> s.molds[hd].els], at)

\* ---------------------------------------------------------------- update (C13)
RECURSIVE Keyvals(_, _)
Keyvals(s, x) == IF s.h[x].k = "KEYVAL" THEN <<x>>
                 ELSE Flat([i \in 1..Len(s.h[x].kids) |-> Keyvals(s, s.h[x].kids[i])])
\* Give container y of the new config an entry for each entry of container x of the old one, as far
\* as the version of y has room for it; entries made here hold the defaults of that version.
RECURSIVE Pair(_, _, _, _), PairOne(_, _, _, _)
PairOne(s, x, y, i) ==
  LET n == s.h[s.h[x].kids[i]]
      idx == Cardinality({j \in 1..(i - 1) : s.h[s.h[x].kids[j]].name = n.name})
      have == Nth(s, y, n.name, idx)
      c == NewChild(s, y, n.k, n.name)
      f == IF n.k = "KEYVAL" THEN [s |-> [c.s EXCEPT !.h[c.id].v = ActiveDefault(ElOf(c.s, c.id), CfgVer(s, y))], st |-> "OK"]
           ELSE Gen(c.s, c.id, CfgVer(s, y), 1)
      z == Finalize(f.s, c.id)
      s1 == IF have # 0 \/ c.st # "OK" THEN s
            ELSE IF f.st # "OK" \/ z.st # "OK" THEN s ELSE z.s
      at == Nth(s1, y, n.name, idx)
  IN IF at = 0 \/ n.k # "SECTION" THEN s1
     ELSE IF s1.h[at].k # "SECTION" THEN s1 ELSE Pair(s1, s.h[x].kids[i], at, 1)
Pair(s, x, y, i) == IF i > Len(s.h[x].kids) THEN s ELSE Pair(PairOne(s, x, y, i), x, y, i + 1)
\* The keyval of the new config that stands where keyval x stands in the old one; 0: none.
Counterpart(s, U, x) ==
  LET q == Query(s, U.tgt, RootName(s, x)) IN IF q.st # "OK" THEN 0 ELSE IF s.h[q.id].k # "KEYVAL" THEN 0 ELSE q.id
\* Walk the keyvals of the old config: keep, adopt, or stop at one that needs a decision.
RECURSIVE UpdRun(_, _)
UpdRun(s, u) ==
  LET U == s.U[u]
      x == Head(U.q)
      n == s.h[x]
      s1 == [s EXCEPT !.U[u].q = Tail(@)]
      stop(t) == Ret([t EXCEPT !.U[u].conf = x], "CONFLICT")
      y == Counterpart(s, U, x)
      el == ElOf(s, x)
      d == el.defs[ActiveIdx(el.defs, U.ver)]
      w == SetValue(s1, y, n.t, n.v)
  IN IF U.q = <<>> THEN Ret([s EXCEPT !.h[U.old].ver = U.ver], "OK")
     ELSE IF n.dead THEN UpdRun(s1, u)
     ELSE IF ~n.me THEN UpdRun(s1, u)
     ELSE IF y = 0 THEN UpdRun(s1, u)
     ELSE IF d.intro <= s.h[U.old].ver THEN IF w.r.st = "OK" THEN UpdRun(w.s, u) ELSE stop(w.s)
     ELSE IF SameValue(n.t, n.v, el.t, d.v) THEN UpdRun(s1, u)
     ELSE IF SameValue(n.t, n.v, el.t, ActiveDefault(el, s.h[U.old].ver))
          THEN UpdRun([s1 EXCEPT !.h[x].v = d.v], u)
     ELSE stop(s1)
StepU(s, c) ==
  LET U == s.U[c.u]
      n == s.h[U.conf]
      el == ElOf(s, U.conf)
      d == ActiveDefault(el, U.ver)
      y == Counterpart(s, U, U.conf)
      w == IF c.v.s = n.v.x THEN SetValue(s, y, n.t, n.v)
           ELSE IF c.v.s = d.x THEN SetValue(s, y, el.t, d)
           ELSE SetText(s, y, c)
  IN CASE c.op = "updconf" ->
            IF U.conf = 0 THEN Ret(s, "NO_CAN_DO")
            ELSE [s |-> s, r |-> [st |-> "OK", name |-> n.name, keyval |-> n.v.x, mold |-> d.x]]
       [] c.op = "updres" ->
            IF U.conf = 0 THEN Ret(s, "NO_CAN_DO")
            ELSE IF w.r.st = "OK" THEN Ret([w.s EXCEPT !.U[c.u].conf = 0], "OK") ELSE w
       [] c.op = "updcont" -> IF U.conf # 0 THEN Ret(s, "CONFLICT") ELSE UpdRun(s, c.u)
       [] c.op = "updfin" ->
            LET s1 == [s EXCEPT !.U = Without(@, c.u)]
            IN [s |-> IF Has(c, "as") THEN [s1 EXCEPT !.C = (c.as :> U.tgt) @@ @] ELSE Kill(s1, U.tgt),
                r |-> [st |-> "OK", cfg |-> Has(c, "as")]]
StartUpdate(s, c) ==
  LET old == s.C[c.c]
      mh == s.h[old].mh
      v == IF c.ver = NoVer THEN s.molds[mh].ver ELSE c.ver
      g == Generate(s, mh, v, "(update)")
      tgt == g.s.C["(update)"]
      s1 == [g.s EXCEPT !.C = Without(@, "(update)")]
      s2 == Pair(s1, old, tgt, 1)
      z == UpdRun([s2 EXCEPT !.U = (c.u :> [old |-> old, tgt |-> tgt, ver |-> v, conf |-> 0, q |-> Keyvals(s2, old)]) @@ @], c.u)
      no(st) == [s |-> s, r |-> [st |-> st, upd |-> FALSE]]
  IN IF s.h[old].ver > v THEN no("CONFLICTING_SEMVER")
     ELSE IF s.h[old].ver = v THEN no("NO_CAN_DO")
     ELSE IF g.r.st # "OK" THEN no(g.r.st)
     ELSE [s |-> z.s, r |-> [st |-> z.r.st, upd |-> TRUE]]

\* ---------------------------------------------------------------- commands
\* Node a command addresses: a handle, optionally followed by a path of [name, index] steps; 0 when
\* the path leads nowhere.
RECURSIVE Walk(_, _, _)
Walk(s, x, at) ==
  IF at = <<>> THEN x
  ELSE LET k == IF Gone(s, x) \/ s.h[x].k = "KEYVAL" THEN 0 ELSE Nth(s, x, at[1][1], at[1][2])
       IN IF k = 0 THEN 0 ELSE Walk(s, k, Tail(at))
Base0(s, hd) == IF hd \in DOMAIN s.X THEN s.X[hd] ELSE IF hd \in DOMAIN s.C THEN s.C[hd] ELSE 0
Target(s, c) == LET b == Base0(s, c.x) IN IF b = 0 THEN 0 ELSE IF Has(c, "at") THEN Walk(s, b, c.at) ELSE b
Bind(s, hd, x) == [s EXCEPT !.X = (hd :> x) @@ @]
Old(s, hd) == IF hd \in DOMAIN s.X THEN Put(s, hd) ELSE s      \* a handle that is reused is let go first

AliveItems(s, K) == SelectSeq(K.items, LAMBDA y : ~s.h[y].dead)

StepX(s, c, x) ==           \* commands on a live context x
  LET n == s.h[x]
      noelem == n.k = "KEYVAL"
      f == Finalize(s, x)
  IN CASE c.op = "dump" -> [s |-> s, r |-> [st |-> "OK", d |-> Dump(s, x, c.flags)]]
       [] c.op = "valid" ->
            LET q == InvalidList(s, x)
            IN [s |-> s, r |-> [st |-> IF q = <<>> THEN "OK" ELSE "INVALID_CONTEXT", col |-> q]]
       [] c.op = "begin" ->
            IF c.k \in {"CONFIG", "MOLD"} THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF c.k = "DOCUMENTATION" /\ n.k = "CONFIG" THEN Ret(s, "NO_CAN_DO")
            ELSE IF noelem \/ c.k \notin {"KEYVAL", "SECTION"} THEN Ret(s, "WRONG_CONTEXT")
            ELSE Ret(Bind([Old(s, c.as) EXCEPT !.h = Append(@, Node(c.k, x, n.root, n.mh))], c.as, Len(s.h) + 1), "OK")
       [] c.op = "setname" -> SetName(s, x, c.name)
       [] c.op = "getname" ->
            IF n.k = "CONFIG" THEN Ret(s, "WRONG_CONTEXT")
            ELSE [s |-> s, r |-> [st |-> "OK", name |-> IF n.name = "" THEN "(null)" ELSE n.name, size |-> Len(n.name)]]
       [] c.op = "setv" -> IF c.t = "ANY" THEN SetText(s, x, c) ELSE SetValue(s, x, c.t, c.v)
       [] c.op = "getv" -> GetValue(s, x, c.t)
       [] c.op = "gettext" ->            \* rendering into a buffer of c.size bytes
            LET t == n.v.x  k == IF Len(t) < c.size THEN Len(t) ELSE c.size - 1
            IN IF ~noelem THEN Ret(s, "WRONG_CONTEXT")
               ELSE IF c.size <= 0 THEN Ret(s, "INSUFFICIENT_RESOURCES")
               ELSE IF n.t = "UNKNOWN" THEN Ret(s, "INVALID_ARGUMENT")
               ELSE [s |-> s, r |-> [st |-> "OK", size |-> Len(t), term |-> TRUE, len |-> k, text |-> SubSeq(t, 1, k)]]
       [] c.op = "setself" ->            \* the text stored, less its first c.off characters, set again
            LET k == IF c.off < Len(n.v.x) THEN c.off ELSE Len(n.v.x)
                w == SubSeq(n.v.x, k + 1, Len(n.v.x))
                g == GetValue(s, x, c.t)
            IN IF g.r.st # "OK" THEN Ret(s, g.r.st) ELSE IF n.v.s = "(null)" THEN Ret(s, "OK")
               ELSE SetValue(s, x, c.t, [s |-> w, n |-> 0, x |-> w])
       [] c.op = "gettype" -> IF noelem THEN [s |-> s, r |-> [st |-> "OK", t |-> n.t]] ELSE Ret(s, "WRONG_CONTEXT")
       [] c.op = "settype" -> Ret(s, "WRONG_CONTEXT")
       [] c.op = "fin" ->
            [s |-> IF f.kept THEN f.s ELSE [f.s EXCEPT !.X = Without(@, c.x)],
             r |-> [st |-> f.st, kept |-> f.kept]]
       [] c.op = "finkeep" -> Ret(f.s, f.st)
       [] c.op = "hold" -> Ret(Bind(Old(s, c.as), c.as, x), "OK")
       [] c.op = "ctxvalid" -> Ret(s, IF n.inv THEN "INVALID_CONTEXT" ELSE "OK")
       [] c.op = "ctxtype" -> [s |-> s, r |-> [st |-> "OK", k |-> n.k, s |-> n.k]]
       [] c.op = "vtype" -> LET t == IF s.h[x].dead \/ n.k # "KEYVAL" THEN "UNKNOWN" ELSE n.t IN [s |-> s, r |-> [st |-> "OK", t |-> t, s |-> t]]
       [] c.op = "fatal" -> IF n.fin THEN Ret(s, "CONTEXT_IN_WRONG_STATE")
                            ELSE [s |-> [s EXCEPT !.h[x].fatal = TRUE], r |-> [st |-> "OK", told |-> TRUE]]
       [] c.op = "setver" ->
            IF n.k # "CONFIG" THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF c.ver > s.molds[n.mh].ver THEN Ret(s, "CONFLICTING_SEMVER")
            ELSE Ret([s EXCEPT !.h[x].ver = c.ver], "OK")
       [] c.op = "getver" -> IF n.k = "CONFIG" THEN [s |-> s, r |-> [st |-> "OK", ver |-> n.ver]]
                             ELSE Ret(s, "WRONG_CONTEXT")
       [] c.op \in {"intro", "depr"} -> Ret(s, "WRONG_CONTEXT")
       [] c.op = "rootname" -> IF n.k = "CONFIG" THEN Ret(s, "WRONG_CONTEXT")
                               ELSE IF ~Placed(s, x) THEN Ret(s, "NOT_EXIST") ELSE [s |-> s, r |-> [st |-> "OK", root |-> RootName(s, x)]]
       [] c.op = "genroot" ->
            IF noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF ~n.me THEN Ret(s, "MOLD_MISSING")
            ELSE LET g == Gen(s, x, CfgVer(s, x), 1) IN Ret(g.s, g.st)
       [] c.op = "setdef" ->
            IF ~noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF ~n.me THEN Ret(s, "MOLD_MISSING")
            ELSE IF n.t # ElOf(s, x).t /\ ~(Textual(n.t) /\ Textual(ElOf(s, x).t)) THEN Ret(s, "WRONG_VALUE_TYPE")
            ELSE Ret([s EXCEPT !.h[x].v = ActiveDefault(ElOf(s, x), c.ver)], "OK")
       [] c.op = "getdef" ->
            IF (IF Has(c, "size") THEN c.size <= 0 ELSE FALSE) THEN Ret(s, "INVALID_ARGUMENT")
            ELSE IF ~noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF ~n.me THEN Ret(s, "MOLD_MISSING")
            ELSE LET t == ActiveDefault(ElOf(s, x), c.ver).x
                     k == IF ~Has(c, "size") THEN Len(t) ELSE IF Len(t) < c.size THEN Len(t) ELSE c.size - 1
                 IN [s |-> s, r |-> IF Has(c, "size") THEN [st |-> "OK", size |-> Len(t), text |-> SubSeq(t, 1, k)] ELSE [st |-> "OK", text |-> t]]
       [] c.op = "limits" ->
            IF n.k = "CONFIG" THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF ~n.me THEN Ret(s, "MOLD_MISSING")
            ELSE [s |-> s, r |-> [st |-> "OK", min |-> LimOf(s, x).min, max |-> LimOf(s, x).max]]
       [] c.op = "getdoc" ->
            IF n.k = "CONFIG" THEN DocAnswer(s, s.molds[n.mh].docs, c.ver)
            ELSE IF ~n.me THEN Ret(s, "MOLD_MISSING") ELSE DocAnswer(s, ElOf(s, x).docs, c.ver)
       [] c.op = "rcoll" ->
            IF n.k = "CONFIG" THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF ~n.me THEN Ret(s, "MOLD_MISSING")
            ELSE LET q == ElOf(s, x).rest
                 IN [s |-> s, r |-> [st |-> IF q = <<>> THEN "NOT_EXIST" ELSE "OK", d |-> [i \in 1..Len(q) |-> q[i].rt]]]
       [] c.op = "defs" -> Ret(s, "WRONG_CONTEXT")
       [] c.op = "query" ->
            LET q == Query(s, x, c.q)
            IN IF q.st # "OK" THEN Ret(s, q.st)
               ELSE [s |-> IF Has(c, "as") THEN Bind(Old(s, c.as), c.as, q.id) ELSE s,
                     r |-> [st |-> "OK", k |-> s.h[q.id].k, root |-> RootName(s, q.id)]]
       [] c.op = "cset" -> SetByQuery(s, x, c.q, c.t, c.v)
       [] c.op = "cget" ->
            LET q == Query(s, x, c.q) IN IF q.st # "OK" THEN Ret(s, q.st) ELSE GetValue(s, q.id, c.t)
       [] c.op = "find" ->
            IF noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE LET k == Nth(s, x, c.name, c.idx)
                 IN IF k = 0 THEN Ret(s, "NOT_EXIST")
                    ELSE IF Has(c, "as") THEN Ret(Bind(Old(s, c.as), c.as, k), "OK")
                    ELSE [s |-> s, r |-> [st |-> "OK", d |-> Dump(s, k, FALSE)]]
       [] c.op = "finds" ->
            IF noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE LET q == Named(s, x, c.name)
                 IN IF q = <<>> THEN Ret(s, "NOT_EXIST")
                    ELSE [s |-> s, r |-> [st |-> "OK", size |-> Len(q), d |-> [i \in 1..Len(q) |-> Dump(s, q[i], FALSE)]]]
       [] c.op = "elems" ->
            IF noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE [s |-> s, r |-> [st |-> "OK", size |-> Len(n.kids),
                                  d |-> [i \in 1..Len(n.kids) |-> Dump(s, n.kids[i], FALSE)]]]
       [] c.op = "kelems" ->
            IF noelem THEN Ret(s, "WRONG_CONTEXT")
            ELSE LET q == IF Has(c, "name") THEN Named(s, x, c.name) ELSE n.kids
                 IN IF q = <<>> /\ Has(c, "name") THEN Ret(s, "NOT_EXIST")
                    ELSE Ret([s EXCEPT !.K = (c.k :> [items |-> q, it |-> 0]) @@ @], "OK")
       [] c.op = "kpush" -> Ret([s EXCEPT !.K[c.k] = [items |-> Append(AliveItems(s, @), x),
                                   it |-> @.it - Cardinality({i \in 1..Len(@.items) : i <= @.it /\ s.h[@.items[i]].dead})]], "OK")

StepK(s, c) ==              \* collections (C11)
  LET K == s.K[c.k]
      alive == AliveItems(s, K)
      it == Cardinality({i \in 1..Len(K.items) : i <= K.it /\ ~s.h[K.items[i]].dead})
      x == alive[it + 1]
  IN CASE c.op = "ksize" -> [s |-> s, r |-> [st |-> "OK", size |-> Len(alive)]]
       [] c.op = "kreset" -> Ret([s EXCEPT !.K[c.k].it = 0], "OK")
       [] c.op = "kfree" -> Ret([s EXCEPT !.K = Without(@, c.k)], "OK")
       [] c.op = "knext" ->
            IF it >= Len(alive)
            THEN [s |-> [s EXCEPT !.K[c.k] = [items |-> alive, it |-> it]], r |-> [st |-> "EXHAUSTED", got |-> FALSE]]
            ELSE [s |-> LET s1 == [s EXCEPT !.K[c.k] = [items |-> alive, it |-> it + 1]]
                        IN IF Has(c, "as") THEN Bind(Old(s1, c.as), c.as, x) ELSE s1,
                  r |-> [st |-> "OK", got |-> TRUE, k |-> s.h[x].k, dead |-> Gone(s, x),
                         name |-> IF s.h[x].k = "CONFIG" \/ Gone(s, x) THEN "" ELSE IF s.h[x].name = "" THEN "(null)" ELSE s.h[x].name,
                         v |-> IF s.h[x].k # "KEYVAL" THEN "" ELSE IF Gone(s, x) THEN "(err)" ELSE Dump(s, x, FALSE).v]]

\* Context handles through which the caller may still act.
Step(s, c) ==
  CASE c.op \in {"reset", "end"} -> [s |-> S0, r |-> IF c.op = "end" THEN [st |-> "OK", leak |-> 0, tmp |-> 0, fds |-> 0] ELSE R("OK")]
    [] c.op = "mold" -> [s |-> [s EXCEPT !.molds = (c.m :> [els |-> c.mold.els, docs |-> c.mold.docs, ver |-> MoldVersion(c.mold)]) @@ @],
                         r |-> [st |-> "OK", ver |-> MoldVersion(c.mold)]]
    [] c.op = "gen" -> Generate(s, c.m, c.ver, c.c)
    [] c.op = "cbegin" ->
         LET b == NewConfig(Old(s, c.as), c.m, 1000) IN Ret(Bind(b.s, c.as, b.id), "OK")
    [] c.op = "cfin" ->
         LET x == s.X[c.x]  v == Validate(s, x)
         IN IF s.h[x].k # "CONFIG" THEN Ret(s, "WRONG_CONTEXT")
            ELSE IF s.h[x].fin THEN [s |-> s, r |-> [st |-> "CONTEXT_IN_WRONG_STATE", kept |-> TRUE, cfg |-> FALSE]]
            ELSE [s |-> [v.s EXCEPT !.h[x].fin = TRUE, !.X = Without(@, c.x), !.C = (c.c :> x) @@ @],
                  r |-> [st |-> v.st, kept |-> FALSE, cfg |-> TRUE]]
    \* A config keeps the mold it was made from for as long as it lives, whoever else lets go of it.
    [] c.op = "mfree" -> Ret(s, "OK")
    [] c.op = "getmold" -> [s |-> s, r |-> [st |-> "OK", same |-> s.h[s.C[c.c]].mh = c.m]]
    [] c.op = "cfree" -> Ret([Kill(s, s.C[c.c]) EXCEPT !.C = Without(@, c.c)], "OK")
    [] c.op = "put" -> Ret(Put(s, c.x), "OK")
    [] c.op = "destroy" ->
         IF Has(c, "at")
         THEN LET x == Target(s, c) IN IF x = 0 THEN Ret(s, "HARNESS nopath") ELSE Ret(Kill(s, x), "OK")
         ELSE LET x == s.X[c.x]  s1 == [s EXCEPT !.X = Without(@, c.x)]
              IN Ret(IF s.h[x].dead THEN s1 ELSE Kill(s1, x), "OK")
    [] c.op = "knew" -> Ret([s EXCEPT !.K = (c.k :> [items |-> <<>>, it |-> 0]) @@ @], "OK")
    [] c.op \in {"ksize", "kreset", "kfree", "knext"} -> StepK(s, c)
    [] c.op = "upd" -> StartUpdate(s, c)
    [] c.op \in {"updconf", "updres", "updcont", "updfin"} -> StepU(s, c)
    [] c.op = "compare" ->
         LET side(hd, at) == IF hd \in DOMAIN s.molds THEN [m |-> TRUE, id |-> 0]
                             ELSE [m |-> FALSE, id |-> Walk(s, Base0(s, hd), at)]
             ax == IF Has(c, "at") THEN c.at ELSE <<>>
             ay == IF Has(c, "bt") THEN c.bt ELSE <<>>
             a == side(c.x, ax)  b == side(c.y, ay)
             tell(q) == [s |-> s, r |-> IF Has(c, "norep") THEN R(DiffAnswer(q).st) ELSE DiffAnswer(q)]
         IN IF (~a.m /\ a.id = 0) \/ (~b.m /\ b.id = 0) THEN Ret(s, "HARNESS nohandle")
            ELSE IF (IF a.m THEN FALSE ELSE Gone(s, a.id)) \/ (IF b.m THEN FALSE ELSE Gone(s, b.id)) THEN Ret(s, "DESTROYED_CONTEXT")
            ELSE IF a.m /\ b.m THEN tell(DiffEl(MoldEl(s, c.x, ax), MoldEl(s, c.y, ay)))
            ELSE IF a.m # b.m THEN tell(<<"">>)
            ELSE tell(Diff(s, a.id, b.id))
    [] OTHER ->
         LET x == IF c.op \in {"dump", "valid"} /\ c.x \in DOMAIN s.C THEN s.C[c.x] ELSE Target(s, c)
         IN IF x = 0 THEN Ret(s, "HARNESS nopath")
            ELSE IF c.op \in {"kpush", "hold", "ctxtype", "vtype"} THEN StepX(s, c, x)
            ELSE IF Gone(s, x) THEN Ret(s, "DESTROYED_CONTEXT")
            ELSE StepX(s, c, x)
=============================================================================
