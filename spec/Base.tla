-------------------------------- MODULE Base --------------------------------
(* Data model shared by every specification in this directory.               *)
(*   version   major * 1000 + minor  (0: none given / never)                 *)
(*   value     [s |-> canonical text, n |-> rank of the number, 0 for text,  *)
(*              x |-> the text it is rendered as]                            *)
(*   mold      [els |-> sequence of elements, docs]                          *)
(*   element   [k, name, t, defs, rest, intro, depr, docs, els]              *)
(*   default   [v |-> value, intro]                                          *)
(*   restr.    [rt, n, lo, hi, s, intro, depr, docs]  lo/hi/n for NUMERIC and RANGE are ranks *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoVer == 0
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Range(q) == {q[i] : i \in 1..Len(q)}
Max2(a, b) == IF a > b THEN a ELSE b
FirstIdx(q, P(_)) == LET I == {i \in 1..Len(q) : P(q[i])} IN IF I = {} THEN 0 ELSE MinOf(I)
SelSeq(q, P(_)) == SelectSeq(q, P)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))

\* ---------------------------------------------------------------- versions
\* The newest version mentioned anywhere in a mold, and at least 1.0.
RECURSIVE ElVersion(_)
ElVersion(e) ==
  MaxOf({e.intro, e.depr, 1000}
        \cup {e.defs[i].intro : i \in 1..Len(e.defs)}
        \cup {Max2(e.rest[i].intro, e.rest[i].depr) : i \in 1..Len(e.rest)}
        \cup {e.docs[i].intro : i \in 1..Len(e.docs)}
        \cup UNION {{e.rest[i].docs[j].intro : j \in 1..Len(e.rest[i].docs)} : i \in 1..Len(e.rest)}
        \cup {ElVersion(e.els[i]) : i \in 1..Len(e.els)})
MoldVersion(m) == MaxOf({1000} \cup {ElVersion(m.els[i]) : i \in 1..Len(m.els)}
                        \cup {m.docs[i].intro : i \in 1..Len(m.docs)})

\* ---------------------------------------------------------------- defaults (C01)
\* Index of the entry of q with the greatest introduced version not above ver; the oldest when all
\* are newer; the newest when no version is given.
ActiveIdx(q, ver) ==
  LET I == 1..Len(q)
      le == IF ver = NoVer THEN I ELSE {i \in I : q[i].intro <= ver}
  IN IF le # {} THEN MaxOf({i \in le : \A j \in le : q[j].intro <= q[i].intro})
     ELSE MinOf({i \in I : \A j \in I : q[j].intro >= q[i].intro})
ActiveDefault(el, ver) == el.defs[ActiveIdx(el.defs, ver)].v
Introduced(el) == IF el.k = "KEYVAL" THEN IF el.defs = <<>> THEN 0 ELSE MinOf({el.defs[i].intro : i \in 1..Len(el.defs)}) ELSE el.intro
Live(el, ver) == Introduced(el) <= ver /\ (el.depr = 0 \/ el.depr > ver)

\* ---------------------------------------------------------------- entry limits (C04)
NewestOf(el, rt, ver) ==
  LET I == {i \in 1..Len(el.rest) : el.rest[i].rt = rt /\ el.rest[i].intro <= ver}
  IN IF I = {} THEN -1
     ELSE el.rest[MinOf({i \in I : \A j \in I : el.rest[j].intro <= el.rest[i].intro})].n
Limits(el, ver) ==
  LET mn == NewestOf(el, "MIN", ver)
      mx == NewestOf(el, "MAX", ver)
      mx2 == IF mx # 0 /\ mx < mn THEN mn ELSE mx
  IN IF ~Live(el, ver) THEN [min |-> 0, max |-> -1]
     ELSE [min |-> IF mn = -1 THEN 1 ELSE mn, max |-> IF mx2 = -1 THEN 1 ELSE mx2]
Fits(max, count) == max = 0 \/ count < max        \* one more entry is allowed

\* ---------------------------------------------------------------- value restrictions (C03)
IsExc(r) == r.rt \notin {"MIN", "MAX"}
RActive(r, ver) == IsExc(r) /\ r.intro <= ver /\ (r.depr = 0 \/ ver < r.depr)
RSat(r, v) ==
  CASE r.rt = "RANGE" -> v.n >= r.lo /\ v.n <= r.hi
    [] r.rt = "NUMERIC" -> v.n = r.lo
    [] r.rt = "ENUM" -> v.s = r.s
    [] OTHER -> FALSE
Allowed(el, ver, v) ==
  LET act == {i \in 1..Len(el.rest) : RActive(el.rest[i], ver)}
  IN CASE el.t \in {"STRING", "BOOLEAN"} -> TRUE
       [] el.t = "ENUM" -> \E i \in act : RSat(el.rest[i], v)
       [] OTHER -> act = {} \/ \E i \in act : RSat(el.rest[i], v)

\* ---------------------------------------------------------------- molds
RECURSIVE ElAt(_, _)
ElAt(els, path) == IF Len(path) = 1 THEN els[path[1]] ELSE ElAt(els[path[1]].els, Tail(path))
ElsAt(mold, path) == IF path = <<>> THEN mold.els ELSE ElAt(mold.els, path).els
IdxByName(els, name) == FirstIdx(els, LAMBDA e : e.name = name)

LegalChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u",
               "v","w","x","y","z","_","0","1","2","3","4","5","6","7","8","9"}
ZeroOf(t) == CASE t \in {"STRING", "ENUM"} -> [s |-> "(null)", n |-> 0, x |-> ""]
               [] t = "BOOLEAN" -> [s |-> "false", n |-> 0, x |-> "False"]
               [] t = "FLOAT" -> [s |-> "0", n |-> 1000000, x |-> "0.000000"]
               [] OTHER -> [s |-> "0", n |-> 1000000, x |-> "0"]
=============================================================================
