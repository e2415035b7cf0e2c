-------------------------------- MODULE Store -------------------------------
(* Stores: instances with plugins, whose configs and molds are files.         *)
(*   s.I : instance -> sequence of plugins [group, fmt, cb, mb, cx, mx, no]   *)
(*         cb/mb  directories of configs and molds, cx/mx their file types,   *)
(*         no     the functions the plugin does without                       *)
(*   s.F : file (path, as text) -> document (as in Doc), or                   *)
(*         [k |-> "badmold"]  JSON that is no valid mold                      *)
(*         [k |-> "over", ...] values that replace those of a namespace mold  *)
(* An entry is covered by the mold of its own name, or else by the mold of    *)
(* its namespace (the directory it is in).                                    *)
EXTENDS Doc

E0 == D0 @@ [I |-> Empty, F |-> Empty]

\* ---------------------------------------------------------------- paths
Prefix(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Suffix(p, t) == Len(p) <= Len(t) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
Char(t, i) == SubSeq(t, i, i)
\* Several slashes are as good as one.
RECURSIVE Norm(_)
Norm(t) == LET i == FirstIdx([j \in 1..Len(t) |-> j], LAMBDA j : j > 1 /\ Char(t, j) = "/" /\ Char(t, j - 1) = "/")
           IN IF i = 0 THEN t ELSE Norm(SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)))
Dir(t) == LET n == Norm(t) IN IF Len(n) > 1 /\ Char(n, Len(n)) = "/" THEN SubSeq(n, 1, Len(n) - 1) ELSE n
LastSlash(t) == LET J == {i \in 1..Len(t) : Char(t, i) = "/"} IN IF J = {} THEN 0 ELSE MaxOf(J)
Legal(e) == \A i \in 1..Len(e) : Char(e, i) \in LegalChars \cup {"/"}
Namespace(e) == e # "" /\ Char(e, Len(e)) = "/"
ConfigPath(p, e) == Norm(p.cb \o "/" \o e \o "." \o p.cx)
MoldPath(p, e) == Norm(p.mb \o "/" \o e \o "." \o p.mx)
OverPath(p, e) == MoldPath(p, e \o ".o")
NamespacePath(p, e) == MoldPath(p, SubSeq(e, 1, LastSlash(e)) \o "__namespace")
\* A name longer than file names can be.
LongName(t) == \E i \in 1..Len(t) : i + 255 <= Len(t) /\ \A j \in i..(i + 255) : Char(t, j) # "/"
LongDir(t) == \E i \in 257..Len(t) : Char(t, i) = "/" /\ LongName(SubSeq(t, 1, i - 1))
\* What is at a path: a file in the place of one of its directories is an error.
At(s, path) ==
  IF \E f \in DOMAIN s.F : Prefix(f \o "/", path) THEN "FS_ERROR"
  ELSE IF path \in DOMAIN s.F THEN "OK" ELSE "NOT_EXIST"
Too(n) == n >= 4096

\* ---------------------------------------------------------------- what plugins have (C19)
Can(p, f) == \A i \in 1..Len(p.no) : p.no[i] # f
Members(s, c) == SelectSeq(s.I[c.i], LAMBDA p : p.group = c.g)
Entry(e, ns, over) == [name |-> e, r |-> 1, w |-> 1, ns |-> ns, over |-> over, single |-> 0]
Bit(b) == IF b THEN 1 ELSE 0
\* c.len: the entry stands for one whose mold path has that many bytes (for a file type of four letters), 0 otherwise.
Far(p, c) == c.len - 4 + Len(p.mx)
\* [st, file, over, e]: where the mold of an entry is.
MoldOf(s, p, e) ==
  LET own == At(s, MoldPath(p, e))
      ns == At(s, NamespacePath(p, e))
      over == At(s, OverPath(p, e)) = "OK"
  IN IF own = "OK" THEN [st |-> "EXISTS", file |-> MoldPath(p, e), over |-> over, e |-> Entry(e, 0, Bit(over))]
     ELSE IF ns = "OK" THEN [st |-> "EXISTS", file |-> NamespacePath(p, e), over |-> over, e |-> Entry(e, Bit(~over), Bit(over))]
     ELSE [st |-> ns]
BaseAt(s, base) == IF Dir(base) \in DOMAIN s.F THEN "FS_ERROR" ELSE IF At(s, Dir(base)) = "FS_ERROR" THEN "FS_ERROR" ELSE "OK"
MoldQuery(s, p, c) ==
  IF ~Legal(c.e) THEN [st |-> "RESTRICTION_VIOLATED"]
  ELSE IF c.len > 0 THEN [st |-> IF Too(Far(p, c) + 2) THEN "INSUFFICIENT_RESOURCES" ELSE IF Too(Far(p, c) + 9) THEN "NOT_EXIST" ELSE At(s, MoldPath(p, c.e \o "/" \o c.e))]
  ELSE MoldOf(s, p, c.e)
ConfigQuery(s, p, c) ==
  LET m == MoldQuery(s, p, c)
      at == At(s, ConfigPath(p, c.e))
  IN IF m.st = "NOT_EXIST" THEN [st |-> "MOLD_MISSING"]
     ELSE IF m.st # "EXISTS" THEN m
     ELSE IF at # "OK" THEN [st |-> at]
     ELSE m
\* The first plugin of the group that has the entry; the reason of the last one when none has.
RECURSIVE First(_, _)
First(q, i) ==
  IF i > Len(q) THEN [st |-> "GROUP_MISSING"]
  ELSE IF q[i].st = "EXISTS" \/ i = Len(q) THEN q[i] @@ [at |-> i]
  ELSE First(q, i + 1)
ConfigHolders(s, c) ==
  LET q == SelectSeq(Members(s, c), LAMBDA p : Can(p, "cquery"))
  IN [i \in 1..Len(q) |-> ConfigQuery(s, q[i], c) @@ [p |-> q[i]]]
MoldHolders(s, c) ==
  LET q == SelectSeq(Members(s, c), LAMBDA p : Can(p, "mquery"))
  IN [i \in 1..Len(q) |-> MoldQuery(s, q[i], c) @@ [p |-> q[i]]]
NoEntry(s, st) == [s |-> s, r |-> [st |-> st, err |-> TRUE]]
Told == {"NOT_EXIST", "MOLD_MISSING", "FS_ERROR", "RESTRICTION_VIOLATED", "GROUP_MISSING"}
EntryQuery(s, c, q) ==
  LET f == First(q, 1)
  IN IF f.st = "EXISTS" THEN [s |-> s, r |-> IF c.null THEN [st |-> "EXISTS"] ELSE [st |-> "EXISTS", e |-> f.e]]
     ELSE IF f.st \in Told THEN NoEntry(s, f.st) ELSE Ret(s, f.st)

\* ---------------------------------------------------------------- lists (C20)
Rel(base, f) == SubSeq(f, Len(base) + 2, Len(f))
FilesIn(s, base, ext) ==
  {Rel(base, f) : f \in {g \in DOMAIN s.F : Prefix(base \o "/", g) /\ Suffix("." \o ext, g) /\ Len(Rel(base, g)) > Len(ext) + 1}}
Stem(f, ext) == SubSeq(f, 1, Len(f) - Len(ext) - 1)
Plain(e) == [len |-> 0, e |-> e]
ConfigsOf(s, p) ==
  LET es == {Stem(f, p.cx) : f \in FilesIn(s, Dir(p.cb), p.cx)}
      has == {e \in es : MoldQuery(s, p, Plain(e)).st = "EXISTS"}
  IN {[MoldQuery(s, p, Plain(e)).e EXCEPT !.name = e] : e \in has}
LastName(e) == SubSeq(e, LastSlash(e) + 1, Len(e))
MoldsOf(s, p) ==
  LET stems == {Stem(f, p.mx) : f \in FilesIn(s, Dir(p.mb), p.mx)}
      dirof(e) == SubSeq(e, 1, LastSlash(e))
      isns(e) == LastName(e) = "__namespace"
      isover(e) == Suffix(".o", e) /\ Len(LastName(e)) > 2
      bare(e) == SubSeq(e, 1, Len(e) - 2)
      covered(e) == (dirof(e) \o "__namespace") \in stems
  IN {Entry(IF LastSlash(e) = 0 THEN "/" ELSE dirof(e), 1, 0) : e \in {x \in stems : isns(x) /\ Legal(dirof(x))}}
     \cup {Entry(e, 0, 0) : e \in {x \in stems : ~isns(x) /\ ~isover(x) /\ Legal(x)}}
     \cup {Entry(bare(e), 0, 0) : e \in {x \in stems : isover(x) /\ bare(x) \notin stems /\ covered(x) /\ Legal(bare(x))}}
\* Entries of earlier plugins hide those of later ones.
RECURSIVE Union(_, _)
Union(sets, i) ==
  IF i > Len(sets) THEN {}
  ELSE LET rest == Union(SubSeq(sets, 1, Len(sets) - 1), i)
           last == sets[Len(sets)]
       IN rest \cup {e \in last : \A x \in rest : x.name # e.name}
ConfigList(s, c) ==
  LET q == SelectSeq(Members(s, c), LAMBDA p : Can(p, "centries"))
      bad == \E i \in 1..Len(q) : BaseAt(s, q[i].cb) # "OK"
  IN [s |-> s, r |-> [st |-> IF bad THEN "FS_ERROR" ELSE "OK",
                      list |-> Union([i \in 1..Len(q) |-> IF BaseAt(s, q[i].cb) = "OK" THEN ConfigsOf(s, q[i]) ELSE {}], 1)]]
MoldList(s, c) ==
  LET q == SelectSeq(Members(s, c), LAMBDA p : Can(p, "mentries"))
  IN [s |-> s, r |-> [st |-> "OK",
                      list |-> Union([i \in 1..Len(q) |-> IF BaseAt(s, q[i].mb) = "OK" THEN MoldsOf(s, q[i]) ELSE {}], 1)]]

\* ---------------------------------------------------------------- molds with overrides (C21)
\* [parse, sync, ovr]: sync [k, q: sequence of [ns, ov: version texts as [k, v, s]]], ovr: sequence of [path, ver, v] by name
\* The values to put in: [path, ver (of the namespace mold), v], by name and then version, the first for each.
Mapped(d, ver) == LET i == FirstIdx(d.sync, LAMBDA y : y.ov.v = ver.v) IN d.sync[i].ns.v
RECURSIVE InsertBy(_, _)
InsertBy(q, o) ==
  IF q = <<>> THEN <<o>>
  ELSE IF Head(q).path # o.path \/ Head(q).ver < o.ver THEN <<Head(q)>> \o InsertBy(Tail(q), o)
  ELSE IF Head(q).ver = o.ver THEN q
  ELSE <<o>> \o q
RECURSIVE Ops(_, _, _)
Ops(d, i, acc) ==
  IF i > Len(d.ovr) THEN acc
  ELSE Ops(d, i + 1, InsertBy(acc, [path |-> d.ovr[i].path, ver |-> Mapped(d, d.ovr[i].ver), v |-> d.ovr[i].v]))
Overrides(d) ==
  IF ~d.parse THEN [st |-> "FS_ERROR"]
  ELSE IF d.none THEN [st |-> "NOT_EXIST"]
  ELSE IF d.shape # "OK" THEN [st |-> "FS_ERROR"]
  ELSE IF \E i \in 1..Len(d.ovr) : \A j \in 1..Len(d.sync) : d.sync[j].ov.s # d.ovr[i].ver.s THEN [st |-> "FS_ERROR"]
  ELSE IF \E i \in 1..Len(d.sync) : d.sync[i].ns.k # "ok" \/ d.sync[i].ov.k # "ok" THEN [st |-> "INVALID_ARGUMENT"]
  ELSE [st |-> "OK", ops |-> Ops(d, 1, <<>>)]
\* A value as the element's type takes it.
Takes(t, v) ==
  CASE v.k = "string" -> t \in {"STRING", "ENUM"} [] v.k = "bool" -> t = "BOOLEAN"
    [] v.k = "int" -> t \in {"INTEGER", "FLOAT"} [] v.k = "real" -> t = "FLOAT" [] OTHER -> FALSE
AsType(t, v) == CASE v.k = "int" -> IF t = "FLOAT" THEN v.f ELSE v.i [] v.k = "real" -> v.f [] OTHER -> v.v
RECURSIVE Find(_, _)
Find(els, path) ==
  LET i == IdxByName(els, Head(path))
  IN IF i = 0 THEN [k |-> "none"]
     ELSE IF Len(path) = 1 THEN els[i]
     ELSE IF els[i].k = "KEYVAL" THEN [k |-> "into a value"]
     ELSE Find(els[i].els, Tail(path))
Put1(e, o) ==
  LET top == MaxOf({e.defs[i].intro : i \in 1..Len(e.defs)})
      v == AsType(e.t, o.v)
  IN IF o.ver > top THEN [e EXCEPT !.defs = Append(@, [v |-> v, intro |-> o.ver])]
     ELSE IF o.ver = top THEN [e EXCEPT !.defs = [i \in 1..Len(@) |-> IF @[i].intro = top THEN [@[i] EXCEPT !.v = v] ELSE @[i]]]
     ELSE e
\* The element at the path of o, with the value of o.
RECURSIVE Upd(_, _, _)
Upd(els, path, o) ==
  LET i == IdxByName(els, Head(path))
  IN [els EXCEPT ![i] = IF Len(path) = 1 THEN Put1(@, o) ELSE [@ EXCEPT !.els = Upd(@, Tail(path), o)]]
RECURSIVE Apply(_, _, _, _)
Apply(m, ver, ops, i) ==
  IF i > Len(ops) THEN [st |-> "OK", m |-> m]
  ELSE LET o == ops[i]  e == Find(m.els, o.path)
           top == MaxOf({e.defs[j].intro : j \in 1..Len(e.defs)})
       IN IF e.k = "none" THEN [st |-> "INVALID_CONTEXT"]
          ELSE IF e.k # "KEYVAL" THEN [st |-> "WRONG_CONTEXT"]
          ELSE IF o.ver > ver THEN [st |-> "INVALID_CONTEXT"]
          ELSE IF o.ver >= top /\ ~Takes(e.t, o.v) THEN [st |-> "INVALID_CONTEXT"]
          ELSE Apply([m EXCEPT !.els = Upd(@, o.path, o)], ver, ops, i + 1)
\* [st, m, mold]: the mold a plugin gives for an entry it covers.
MoldRead(s, p, e) ==
  LET w == MoldOf(s, p, e)
      d == s.F[w.file]
      ov == IF w.over THEN s.F[OverPath(p, e)] ELSE [k |-> "none"]
      o == CASE ov.k = "none" -> [st |-> "OK", ops |-> <<>>] [] ov.k = "over" -> Overrides(ov) [] OTHER -> [st |-> "any"]
      a == Apply(d.m, d.m.ver, o.ops, 1)
  IN IF d.k = "raw" \/ o.st = "any" THEN [st |-> "any"]
     ELSE IF o.st # "OK" THEN [st |-> o.st, mold |-> FALSE]
     ELSE IF d.k = "junk" THEN [st |-> "FS_ERROR", mold |-> FALSE]
     ELSE IF d.k = "badmold" THEN [st |-> "INVALID_CONTEXT", mold |-> TRUE]
     ELSE IF a.st = "OK" THEN [st |-> "OK", m |-> WithVer(a.m), mold |-> TRUE]
     ELSE [st |-> a.st, mold |-> a.st = "INVALID_CONTEXT"]
ReadMoldEntry(s, c) ==
  LET f == First(MoldHolders(s, c), 1)
      w == MoldRead(s, f.p, c.e)
      g == c.seen
  IN IF f.st # "EXISTS" THEN [s |-> s, r |-> [st |-> "NOT_EXIST", mold |-> FALSE, err |-> TRUE]]
     ELSE IF ~Can(f.p, "mread") THEN [s |-> s, r |-> [st |-> "NO_CAN_DO", mold |-> FALSE]]
     ELSE IF w.st = "OK" THEN NewMold(s, c.m, w.m, c.vers)
     ELSE IF w.st # "any" THEN [s |-> s, r |-> [st |-> w.st, mold |-> w.mold]]
     ELSE IF g.deep THEN [s |-> s, r |-> [st |-> g.st, mold |-> FALSE, deep |-> TRUE]]
     ELSE IF ~g.mold THEN [s |-> s, r |-> [st |-> IF g.st = "OK" THEN "an error" ELSE g.st, mold |-> FALSE]]
     ELSE IF g.st # "OK" THEN [s |-> s, r |-> [st |-> g.st, mold |-> TRUE]]
     ELSE IF ~WellFormedMold(g.d) THEN [s |-> s, r |-> [st |-> "INVALID_CONTEXT", mold |-> FALSE]]
     ELSE NewMold(s, c.m, WithVer(g.d), c.vers)
WriteMoldEntry(s, c) ==
  LET q == Members(s, c)
      p == q[1]
      path == MoldPath(p, c.e)
      at == At(s, path)
  IN IF q = <<>> THEN NoEntry(s, "NOT_EXIST")
     ELSE IF ~Can(p, "mwrite") THEN Ret(s, "INTERNAL_ERROR")
     ELSE IF c.len > 0 /\ Too(Far(p, c)) THEN Ret(s, "INSUFFICIENT_RESOURCES")
     ELSE IF at = "FS_ERROR" \/ LongName(path) THEN NoEntry(s, "FS_ERROR")
     ELSE Ret([s EXCEPT !.F = (path :> [k |-> "mold", m |-> Kept(s.molds[c.m])]) @@ @], "OK")

\* ---------------------------------------------------------------- configs (C19, C21)
ReadConfigEntry(s, c) ==
  LET f == First(ConfigHolders(s, c), 1)
      d == s.F[ConfigPath(f.p, c.e)]
      w == MoldRead(s, f.p, c.e)
      anon == "#" \o ToString(Cardinality(DOMAIN s.molds))
      mh == IF Has(c, "m") THEN c.m ELSE anon
      s1 == IF Has(c, "m") THEN s ELSE [s EXCEPT !.molds = (anon :> w.m) @@ @]
  IN IF f.st # "EXISTS" THEN [s |-> s, r |-> [st |-> "NOT_EXIST", cfg |-> FALSE, err |-> TRUE]]
     ELSE IF ~Can(f.p, "cread") THEN [s |-> s, r |-> [st |-> "NO_CAN_DO", cfg |-> FALSE]]
     ELSE IF ~Has(c, "m") /\ w.st # "OK" THEN Refused(s, IF w.st = "INVALID_CONTEXT" THEN "MOLD_MISSING" ELSE w.st)
     ELSE IF d.k = "doc" THEN ReadDoc(s1, d, mh, c.c)
     ELSE IF d.k = "junk" THEN Refused(s, "FS_ERROR")
     ELSE ReadRaw(s1, c, mh)
\* Writing replaces the whole entry, or leaves it as it was.
WriteConfigEntry(s, c) ==
  LET q == Members(s, c)
      p == q[1]
      m == MoldQuery(s, p, c)
      path == ConfigPath(p, c.e)
      w == Writing(s, s.C[c.c], [c EXCEPT !.fmt = p.fmt])
  IN IF Namespace(c.e) THEN NoEntry(s, "FS_ERROR")
     ELSE IF q = <<>> THEN NoEntry(s, "NOT_EXIST")
     ELSE IF ~Can(p, "cwrite") THEN Ret(s, "NO_CAN_DO")
     ELSE IF m.st = "NOT_EXIST" THEN NoEntry(s, "MOLD_MISSING")
     ELSE IF m.st # "EXISTS" THEN IF m.st \in Told THEN NoEntry(s, m.st) ELSE Ret(s, m.st)
     ELSE IF At(s, path) = "FS_ERROR" \/ LongDir(path) THEN NoEntry(s, "FS_ERROR")
     ELSE IF w.st # "OK" THEN Ret(s, w.st)
     ELSE IF LongName(path) THEN NoEntry(s, "FS_ERROR")
     ELSE [s |-> [s EXCEPT !.F = (path :> w.doc) @@ @], r |-> w.r]
RemoveConfigEntry(s, c) ==
  LET q == Members(s, c)
      p == q[1]
      f == ConfigQuery(s, p, c)
  IN IF Namespace(c.e) THEN NoEntry(s, "FS_ERROR")
     ELSE IF q = <<>> THEN NoEntry(s, "NOT_EXIST")
     ELSE IF ~Can(p, "cremove") THEN Ret(s, "NO_CAN_DO")
     ELSE IF f.st # "EXISTS" THEN IF f.st \in Told THEN NoEntry(s, f.st) ELSE Ret(s, f.st)
     ELSE Ret([s EXCEPT !.F = Without(@, ConfigPath(p, c.e))], "OK")

\* ---------------------------------------------------------------- disturbed writes (C29)
\* n: what the call does undisturbed. With an operation failing, the disk full or the process ending, the
\* entry is as it was, or it is what the call makes of it; a call that fails leaves it as it was, and
\* leaves nothing else. What is seen (c.kept: the file is as it was) decides which of these it is.
Disturbed(s, c, n) ==
  LET died == c.fault.k = "crash"
      tidy == IF died \/ (c.fault.k = "fail" /\ n.r.st # "OK") THEN Empty ELSE [left |-> 0]
  IN IF ~Has(c, "fault") \/ n.r.st = "HARNESS nohandle" THEN n
     ELSE IF c.fault.k = "fail" /\ ~c.hit THEN [n EXCEPT !.r = @ @@ tidy]
     ELSE IF c.seenst = "DONE" THEN [s |-> n.s, r |-> [st |-> "DONE"]]
     ELSE IF c.seenst = "OK" THEN [n EXCEPT !.r = @ @@ tidy @@ (IF c.op = "cremove" THEN [kept |-> FALSE] ELSE Empty) @@ (IF c.kept THEN Empty ELSE [whole |-> TRUE])]
     ELSE IF c.kept THEN [s |-> s, r |-> tidy @@ [kept |-> TRUE] @@ (IF died THEN [st |-> "CRASHED"] ELSE Empty)]
     ELSE IF died /\ n.r.st = "OK" THEN [s |-> n.s, r |-> [st |-> "CRASHED", whole |-> TRUE]]
     ELSE [s |-> s, r |-> [kept |-> TRUE]]

\* ---------------------------------------------------------------- the machine
EStep(s, c) ==
  CASE c.op \in {"reset", "end"} -> [DStep(s, c) EXCEPT !.s = E0]
    [] c.op = "inst" -> Ret([s EXCEPT !.I = (c.i :> c.plugs) @@ @], "OK")
    [] c.op = "plugs" -> [s |-> s, r |-> [st |-> "OK", groups |-> [i \in 1..Len(s.I[c.i]) |-> s.I[c.i][i].group]]]
    [] c.op = "fput" -> Ret([s EXCEPT !.F = (Norm(c.path) :> IF Has(c, "src") THEN [k |-> "mold", m |-> Kept(s.molds[c.src])] ELSE c.doc) @@ @], "OK")
    [] c.op = "fdel" -> Ret([s EXCEPT !.F = Without(@, Norm(c.path))], "OK")
    [] c.op = "fls" -> [s |-> s, r |-> [st |-> "OK", files |-> DOMAIN s.F]]
    [] c.op = "cquery" -> EntryQuery(s, c, ConfigHolders(s, c))
    [] c.op = "mquery" -> EntryQuery(s, c, MoldHolders(s, c))
    [] c.op = "centries" -> ConfigList(s, c)
    [] c.op = "mentries" -> MoldList(s, c)
    [] c.op = "mread" -> ReadMoldEntry(s, c)
    [] c.op = "mwrite" -> Disturbed(s, c, WriteMoldEntry(s, c))
    [] c.op = "cread" -> ReadConfigEntry(s, c)
    [] c.op = "cwrite" -> Disturbed(s, c, WriteConfigEntry(s, c))
    [] c.op = "cremove" -> Disturbed(s, c, RemoveConfigEntry(s, c))
    [] OTHER -> DStep(s, c)
=============================================================================
