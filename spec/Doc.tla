-------------------------------- MODULE Doc ---------------------------------
(* Documents: what configs and molds are written as, and what a document is   *)
(* read as.  s.D : document handle -> document.                               *)
(*   document  [k |-> "doc", fmt, parse, ver, body]                           *)
(*       parse  the text is a document of that format at all                  *)
(*       ver    [k |-> "ok" / "none" / "bad" / "mis", v]  (mis: not a text)   *)
(*       body   the node of the config itself                                 *)
(*   or [k |-> "raw"]: any bytes; whatever they are read as has to be a       *)
(*   config (mold) like any other, or they are refused.                       *)
(*   or [k |-> "mold", m]: a mold, as its document keeps it.                  *)
(*   node   object (kids: sequence of [n, v]), array (items), string, int     *)
(*          (i: as INTEGER, f: as FLOAT), real (f), bool (v), null, uint, time *)
EXTENDS Mold

D0 == M0 @@ [D |-> Empty]

\* ---------------------------------------------------------------- writing (C16, C17)
Blank(v) == IF v.s = "(null)" THEN [s |-> "", n |-> 0, x |-> ""] ELSE v
RECURSIVE Written(_, _), HasErr(_, _)
ValueNode(n) ==
  CASE n.t = "INTEGER" -> [k |-> "int", i |-> n.v, f |-> n.v]
    [] n.t = "FLOAT" -> [k |-> "real", f |-> n.v]
    [] n.t = "BOOLEAN" -> [k |-> "bool", v |-> n.v]
    [] n.t \in {"STRING", "ENUM"} -> [k |-> "string", v |-> Blank(n.v)]
    [] OTHER -> [k |-> "string", v |-> [s |-> "UNKNOWN", n |-> 0, x |-> "UNKNOWN"]]
\* The entries below x: one key per name, in order of first appearance; several entries of a name are an array.
Written(s, x) ==
  LET n == s.h[x]
      names == Uniq(NamesIn(s, x))
      one(nm) == LET q == Named(s, x, nm)
                 IN IF Len(q) = 1 THEN Written(s, q[1])
                    ELSE [k |-> "array", items |-> [i \in 1..Len(q) |-> Written(s, q[i])]]
  IN IF n.k = "KEYVAL" THEN ValueNode(n)
     ELSE [k |-> "object", kids |-> [i \in 1..Len(names) |-> [n |-> names[i], v |-> one(names[i])]]]
\* A value of an element the mold does not know can only be fetched as text.
HasErr(s, x) == IF s.h[x].k = "KEYVAL" THEN ~s.h[x].me /\ s.h[x].t \notin {"STRING", "UNKNOWN"}
                ELSE \E i \in 1..Len(s.h[x].kids) : HasErr(s, s.h[x].kids[i])
RECURSIVE HasUnknown(_, _)
HasUnknown(s, x) == IF s.h[x].k = "KEYVAL" THEN s.h[x].t = "UNKNOWN"
                    ELSE \E i \in 1..Len(s.h[x].kids) : HasUnknown(s, s.h[x].kids[i])
\* What of a document can be seen in its text.
RECURSIVE Shape(_)
Shape(t) ==
  CASE t.k = "object" -> [k |-> t.k, kids |-> [i \in 1..Len(t.kids) |-> [n |-> t.kids[i].n, v |-> Shape(t.kids[i].v)]]]
    [] t.k = "array" -> [k |-> t.k, items |-> [i \in 1..Len(t.items) |-> Shape(t.items[i])]]
    [] t.k = "int" -> [k |-> "number", v |-> t.i.s]
    [] t.k = "real" -> [k |-> "number", v |-> t.f.s]
    [] OTHER -> [k |-> t.k, v |-> t.v.s]
\* TOML tables keep no order: their keys are read in the order of their bytes (order: all names, sorted).
RECURSIVE Sorted(_, _)
Sorted(t, order) ==
  LET pick(nm) == LET i == FirstIdx(t.kids, LAMBDA q : q.n = nm) IN t.kids[i]
      q == SelectSeq(order, LAMBDA nm : \E i \in 1..Len(t.kids) : t.kids[i].n = nm)
  IN CASE t.k = "object" -> [t EXCEPT !.kids = [i \in 1..Len(q) |-> [n |-> q[i], v |-> Sorted(pick(q[i]).v, order)]]]
       [] t.k = "array" -> [t EXCEPT !.items = [i \in 1..Len(t.items) |-> Sorted(t.items[i], order)]]
       [] OTHER -> t
\* Entries of one name whose texts are of different kinds have no place in a TOML array.
RECURSIVE Mixed(_)
Mixed(t) ==
  CASE t.k = "object" -> \E i \in 1..Len(t.kids) : Mixed(t.kids[i].v)
    [] t.k = "array" -> (\E i \in 1..Len(t.items) : t.items[i].k # t.items[1].k \/ Mixed(t.items[i]))
    [] OTHER -> FALSE
DocOf(s, x, c, body) == [k |-> "doc", fmt |-> c.fmt, parse |-> TRUE, ver |-> [k |-> "ok", v |-> s.h[x].ver], body |-> body]
\* What writing config x comes to: the document (when st is OK) and what is seen of it in the text (r).
Writing(s, x, c) ==
  LET w == Written(s, x)
  IN IF HasErr(s, x) THEN [st |-> "MOLD_MISSING"]
     ELSE IF c.fmt = "json"
          THEN [st |-> "OK", doc |-> DocOf(s, x, c, IF Has(c, "tree") THEN c.tree ELSE w),
                r |-> [st |-> "OK", ver |-> s.h[x].ver, doc |-> Sorted(Shape(w), c.order)]]
     ELSE IF HasUnknown(s, x) THEN [st |-> "INTERNAL_ERROR"]
     ELSE [st |-> "OK", doc |-> IF Mixed(w) THEN [k |-> "raw"] ELSE DocOf(s, x, c, Sorted(w, c.order)), r |-> [st |-> "OK"]]
Write(s, c) ==
  LET w == Writing(s, s.C[c.c], c)
  IN IF w.st # "OK" THEN Ret(s, w.st) ELSE [s |-> [s EXCEPT !.D = (c.d :> w.doc) @@ @], r |-> w.r]

\* ---------------------------------------------------------------- reading
Ok(s, x, st) == [s |-> s, x |-> x, st |-> st]
Tolerated == {"OK", "INVALID_CONTEXT"}
RECURSIVE ReadType(_, _, _, _, _), ReadKids(_, _, _, _, _), ReadItems(_, _, _, _, _, _)
\* [s, st]: st is OK or the reason the whole document is refused.
ReadValue(s, x, name, t, fmt) ==
  LET c == NewChild(s, x, "KEYVAL", name)
      vt == c.s.h[c.id].t
      w == CASE t.k = "bool" -> SetValue(c.s, c.id, "BOOLEAN", t.v)
             [] t.k = "real" -> SetValue(c.s, c.id, "FLOAT", t.f)
             [] t.k = "int" -> IF fmt = "json" /\ vt = "FLOAT" THEN SetValue(c.s, c.id, "FLOAT", t.f)
                               ELSE SetValue(c.s, c.id, "INTEGER", t.i)
             [] OTHER -> SetValue(c.s, c.id, IF vt = "ENUM" THEN "ENUM" ELSE "STRING", t.v)
      z == Finalize(w.s, c.id)
  IN IF c.st \notin {"OK", "NOT_EXIST"} THEN [s |-> s, st |-> c.st]
     ELSE IF w.r.st \notin Tolerated THEN [s |-> s, st |-> w.r.st]
     ELSE [s |-> z.s, st |-> IF z.st \in Tolerated THEN "OK" ELSE z.st]
ReadSection(s, x, name, t, fmt) ==
  LET c == NewChild(s, x, "SECTION", name)
      k == ReadKids(c.s, c.id, t.kids, 1, fmt)
      z == Finalize(k.s, c.id)
  IN IF c.st \notin {"OK", "NOT_EXIST"} THEN [s |-> s, st |-> c.st]
     ELSE IF k.st # "OK" THEN k
     ELSE [s |-> z.s, st |-> IF z.st \in Tolerated THEN "OK" ELSE z.st]
ReadType(s, x, name, t, fmt) ==
  CASE t.k = "object" -> ReadSection(s, x, name, t, fmt)
    [] t.k = "array" -> ReadItems(s, x, name, t.items, 1, fmt)
    [] t.k \in {"null", "uint", "time"} -> [s |-> s, st |-> "INTERNAL_ERROR"]
    [] OTHER -> ReadValue(s, x, name, t, fmt)
ReadItems(s, x, name, q, i, fmt) ==
  IF i > Len(q) THEN [s |-> s, st |-> "OK"]
  ELSE LET z == ReadType(s, x, name, q[i], fmt)
       IN IF z.st # "OK" THEN z ELSE ReadItems(z.s, x, name, q, i + 1, fmt)
ReadKids(s, x, kids, i, fmt) ==
  IF i > Len(kids) THEN [s |-> s, st |-> "OK"]
  ELSE LET z == ReadType(s, x, kids[i].n, kids[i].v, fmt)
       IN IF z.st # "OK" THEN z ELSE ReadKids(z.s, x, kids, i + 1, fmt)

Refused(s, st) == [s |-> s, r |-> [st |-> st, cfg |-> FALSE]]
\* A config as it came out of a document: finalized, and given to the caller whether valid or not.
Given(s, id, hd) ==
  LET v == Validate(s, id)
      s1 == [v.s EXCEPT !.h[id].fin = TRUE, !.C = (hd :> id) @@ @]
  IN [s |-> s1, r |-> [st |-> v.st, cfg |-> TRUE, d |-> Dump(s1, id, TRUE)]]
ReadDoc(s, d, mh, hd) ==
  LET newest == s.molds[mh].ver
      b == NewConfig(s, mh, IF d.ver.k = "ok" THEN d.ver.v ELSE 1000)
      fatal == [b.s EXCEPT !.h[b.id].fatal = TRUE]
      k == ReadKids(b.s, b.id, d.body.kids, 1, d.fmt)
  IN IF ~d.parse THEN Refused(s, "FS_ERROR")
     ELSE IF d.fmt = "json" /\ d.ver.k \in {"none", "mis"} THEN Given(fatal, b.id, hd)
     ELSE IF d.ver.k = "bad" THEN Refused(s, "INVALID_ARGUMENT")
     ELSE IF d.ver.k = "ok" /\ d.ver.v > newest THEN Refused(s, "CONFLICTING_SEMVER")
     ELSE IF d.body.k # "object" THEN Given(IF d.ver.k = "ok" THEN [fatal EXCEPT !.h[b.id].ver = d.ver.v] ELSE fatal, b.id, hd)
     ELSE IF k.st # "OK" THEN Refused(s, k.st)
     ELSE Given(k.s, b.id, hd)

\* Arbitrary bytes (C26): either refused, or a config made of this mold's elements, of a version the
\* mold has, whose validity is told rightly.
RECURSIVE Adopt(_, _, _, _)
Adopt(s, x, els, i) ==
  IF i > Len(els) THEN s
  ELSE LET e == els[i]
           c == NewChild(s, x, e.k, e.name)
           w == IF e.k # "KEYVAL" THEN Adopt(c.s, c.id, e.els, 1)
                ELSE IF e.t = "UNKNOWN" THEN c.s ELSE SetValue(c.s, c.id, e.t, e.v).s
           z == Finalize(w, c.id)
       IN Adopt(IF c.st \in {"OK", "NOT_EXIST"} /\ z.st \in Tolerated THEN z.s ELSE s, x, els, i + 1)
ReadRaw(s, c, mh) ==
  LET g == c.seen
      b == NewConfig(s, mh, g.d.ver)
      k == Adopt(b.s, b.id, g.d.els, 1)
      f == IF g.d.els = <<>> /\ g.d.inv = 1 THEN [k EXCEPT !.h[b.id].fatal = TRUE] ELSE k
  IN IF g.deep THEN [s |-> s, r |-> [st |-> g.st, cfg |-> FALSE, deep |-> TRUE]]
     ELSE IF ~g.cfg THEN Refused(s, IF g.st \in Tolerated THEN "an error" ELSE g.st)
     ELSE IF g.d.ver < 0 \/ g.d.ver > s.molds[mh].ver THEN Refused(s, "CONFLICTING_SEMVER")
     ELSE Given(f, b.id, c.c)

\* ---------------------------------------------------------------- molds (C18)
\* The format keeps one documentation per element, without a version: the newest.
KeptDocs(q) == IF q = <<>> \/ DocText(q, NoVer) = "" THEN <<>> ELSE <<[v |-> DocText(q, NoVer), intro |-> 0]>>
RECURSIVE KeptEl(_)
KeptEl(e) == [e EXCEPT !.docs = KeptDocs(@),
                       !.rest = [i \in 1..Len(@) |-> [@[i] EXCEPT !.docs = KeptDocs(@)]],
                       !.els = [i \in 1..Len(@) |-> KeptEl(@[i])]]
WithVer(m) == [els |-> m.els, docs |-> m.docs, ver |-> MoldVersion(m)]
Kept(m) == WithVer([els |-> [i \in 1..Len(m.els) |-> KeptEl(m.els[i])], docs |-> KeptDocs(m.docs)])

\* What can be read off a mold.
TextAt(docs, vers) == [i \in 1..Len(vers) |-> DocText(docs, vers[i])]
RestDump(r, vers) ==
  [rt |-> r.rt, intro |-> r.intro, depr |-> r.depr, docs |-> TextAt(r.docs, vers)]
  @@ (CASE r.rt = "RANGE" -> [lo |-> r.lo, hi |-> r.hi] [] r.rt = "ENUM" -> [s |-> r.s]
        [] r.rt = "NUMERIC" -> [n |-> r.lo] [] OTHER -> [n |-> r.n])
RECURSIVE ElDump(_, _, _)
ElDump(e, mv, vers) ==
  LET lim == Limits(e, mv)
      rest == [docs |-> TextAt(e.docs, vers), name |-> e.name,
               rest |-> [i \in 1..Len(e.rest) |-> RestDump(e.rest[i], vers)], min |-> lim.min, max |-> lim.max]
  IN IF e.k = "KEYVAL"
     THEN [k |-> e.k, intro |-> "WRONG_CONTEXT", depr |-> e.depr, t |-> e.t,
           defs |-> [i \in 1..Len(e.defs) |-> [intro |-> e.defs[i].intro, v |-> e.defs[i].v.s]],
           at |-> [i \in 1..Len(vers) |-> ActiveDefault(e, vers[i]).x]] @@ rest
     ELSE [k |-> e.k, intro |-> e.intro, depr |-> e.depr, els |-> [i \in 1..Len(e.els) |-> ElDump(e.els[i], mv, vers)]] @@ rest
MoldDump(m, vers) ==
  [k |-> "MOLD", ver |-> m.ver, docs |-> TextAt(m.docs, vers), els |-> [i \in 1..Len(m.els) |-> ElDump(m.els[i], m.ver, vers)]]

\* What every mold that is handed out as valid has to be (C06, C26).
Distinct(q, F(_)) == \A i, j \in 1..Len(q) : i # j => F(q[i]) # F(q[j])
RECURSIVE WellFormed(_)
WellFormed(e) ==
  /\ LegalName(e.name)
  /\ \A rt \in {"MIN", "MAX"} : Distinct(SelectSeq(e.rest, LAMBDA r : r.rt = rt), LAMBDA r : r.intro)
  /\ \A i \in 1..Len(e.rest) : e.rest[i].rt \in {"MIN", "MAX", "ENUM", "NUMERIC", "RANGE"}
                               /\ (e.rest[i].rt = "RANGE" => e.rest[i].lo <= e.rest[i].hi)
  /\ IF e.k = "KEYVAL" THEN e.t \in {"STRING", "INTEGER", "FLOAT", "BOOLEAN", "ENUM"} /\ e.defs # <<>> /\ Distinct(e.defs, LAMBDA d : d.intro)
     ELSE /\ Distinct(e.els, LAMBDA x : x.name)
          /\ \A i \in 1..Len(e.els) : WellFormed(e.els[i])
WellFormedMold(m) == Distinct(m.els, LAMBDA x : x.name) /\ \A i \in 1..Len(m.els) : WellFormed(m.els[i])
NewMold(s, hd, m, vers) ==
  [s |-> [s EXCEPT !.molds = (hd :> m) @@ @], r |-> [st |-> "OK", mold |-> TRUE, d |-> MoldDump(m, vers)]]
ReadMold(s, c) ==
  LET d == s.D[c.d]
      g == c.seen
  IN IF d.k = "mold" THEN NewMold(s, c.m, d.m, c.vers)
     ELSE IF g.deep THEN [s |-> s, r |-> [st |-> g.st, mold |-> FALSE, deep |-> TRUE]]
     ELSE IF ~g.mold THEN [s |-> s, r |-> [st |-> IF g.st = "OK" THEN "an error" ELSE g.st, mold |-> FALSE]]
     ELSE IF g.st # "OK" THEN [s |-> s, r |-> [st |-> g.st, mold |-> TRUE]]
     ELSE IF ~WellFormedMold(g.d) THEN [s |-> s, r |-> [st |-> "INVALID_CONTEXT", mold |-> FALSE]]
     ELSE NewMold(s, c.m, WithVer(g.d), c.vers)

\* ---------------------------------------------------------------- the machine
DStep(s, c) ==
  CASE c.op \in {"reset", "end"} -> [MStep(s, c) EXCEPT !.s = D0]
    [] c.op \in {"iblank", "ifree"} -> Ret(s, "OK")
    [] c.op = "ser" -> Write(s, c)
    [] c.op = "docput" -> Ret([s EXCEPT !.D = (c.d :> c.doc) @@ @], "OK")
    [] c.op = "unser" -> IF s.D[c.d].k = "doc" THEN ReadDoc(s, s.D[c.d], c.m, c.c) ELSE ReadRaw(s, c, c.m)
    [] c.op = "mser" -> Ret([s EXCEPT !.D = (c.d :> [k |-> "mold", m |-> Kept(s.molds[c.m])]) @@ @], "OK")
    [] c.op = "munser" -> ReadMold(s, c)
    [] c.op = "mdump" /\ c.m \notin DOMAIN s.mm -> [s |-> s, r |-> [st |-> "OK", d |-> MoldDump(s.molds[c.m], c.vers)]]
    [] OTHER -> MStep(s, c)
=============================================================================
