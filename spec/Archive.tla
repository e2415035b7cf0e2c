------------------------------- MODULE Archive ------------------------------
(* Archives of configs, exported from and imported into stores.               *)
(*   s.A : archive being exported -> [ex: path of the archive it extends      *)
(*         ("" for none), sp: as it was spelled, ents,                        *)
(*         extra: names of files that are no entries,                         *)
(*         torn: an addition broke off, only giving it up is left]            *)
(*   ents: sequence of [b: plugin name, g, e, ver: as indexed, doc (Doc),     *)
(*         shape: what is seen of its text]                                   *)
(*   s.P : import -> sequence of [b, g, e, ver, st, conf, imp, c: config]     *)
(*   s.F : also [k |-> "arc", ents, extra, dub: damaged, perhaps readable],   *)
(*         [k |-> "hostile"]: to be refused                                   *)
(*   s.dirs : directories                                                     *)
EXTENDS Store

A0 == E0 @@ [A |-> Empty, P |-> Empty, dirs |-> {""}]

Up(t) == LET j == LastSlash(t) IN IF j = 0 THEN "" ELSE SubSeq(t, 1, j - 1)
RECURSIVE Ups(_)
Ups(t) == IF t = "" THEN {""} ELSE {t} \cup Ups(Up(t))
NoShape == [k |-> "toml"]
Answer(s, st, more) == [s |-> s, r |-> [st |-> st] @@ more]
Cleaned(s) == IF DOMAIN s.A = {} THEN [tmp |-> 0] ELSE Empty
\* An archive that is no archive: refused, for one of the reasons there are.
BadArchive == {"FS_ERROR", "NOT_EXIST", "WRONG_VALUE_TYPE", "NO_CAN_DO", "INVALID_ARGUMENT"}
Adopted(q, c) == LET i == FirstIdx(q, LAMBDA t : t.g = c.g /\ t.e = c.e) IN IF i = 0 THEN Empty ELSE [tree |-> q[i].tree]
Struck(c) == Has(c, "fault")

\* ---------------------------------------------------------------- exporting (C22)
\* c.got: whether a damaged archive, or one met with a fault, was accepted.
BeginArchive(s, c) ==
  LET refused(S) == [s |-> s, r |-> [oneof |-> IF Struck(c) THEN S \cup {"FS_ERROR", "NOT_EXIST", "NO_MEMORY"} ELSE S, got |-> FALSE] @@ Cleaned(s)]
      no(st) == refused({st})
      f == s.F[c.path]
      ok == Answer([s EXCEPT !.A = (c.a :> (IF Has(c, "path") THEN [ex |-> c.path, sp |-> c.sp, ents |-> f.ents, extra |-> f.extra, torn |-> FALSE]
                                            ELSE [ex |-> "", sp |-> "", ents |-> <<>>, extra |-> {}, torn |-> FALSE])) @@ @], "OK", [got |-> TRUE])
  IN IF Struck(c) /\ (Has(c, "path") => c.odd = "") /\ ~c.got THEN refused(IF Has(c, "path") THEN BadArchive ELSE {})
     ELSE IF ~Has(c, "path") THEN ok
     ELSE IF c.odd \in {"empty", "slash"} THEN no("INVALID_ARGUMENT")
     ELSE IF c.odd = "nodir" THEN no("NOT_EXIST")
     ELSE IF ~Suffix(".disir", c.path) THEN no("NO_CAN_DO")
     ELSE IF c.path \notin DOMAIN s.F THEN no(IF c.path \in s.dirs THEN "FS_ERROR" ELSE "NOT_EXIST")
     ELSE IF f.k # "arc" \/ (f.dub /\ ~c.got) THEN refused(BadArchive)
     ELSE ok
\* [st, ent]: an entry of the store as it goes into an archive; asked for on its own, or listed.
Exported(s, c, asked) ==
  LET f == First(ConfigHolders(s, c), 1)
      p == Members(s, c)[1]
      rd == ReadConfigEntry(s, [c |-> "(exported)"] @@ c)
      x == rd.s.C["(exported)"]
      w == Writing(rd.s, x, [order |-> c.order, fmt |-> p.fmt] @@ Adopted(c.trees, c))
  IN IF asked /\ f.st # "EXISTS" THEN [st |-> f.st]
     ELSE IF ~Can(p, "cfdwrite") THEN [st |-> "NO_CAN_DO"]
     ELSE IF rd.r.st # "OK" THEN [st |-> rd.r.st]
     ELSE IF w.st # "OK" THEN [st |-> w.st]
     ELSE [st |-> "OK", ent |-> [b |-> p.name, g |-> c.g, e |-> c.e, ver |-> rd.s.h[x].ver, doc |-> w.doc,
                                 shape |-> IF p.fmt = "json" THEN w.r.doc ELSE NoShape]]
Torn(s, c, st, S) == [s |-> [s EXCEPT !.A[c.a].torn = TRUE], r |-> [oneof |-> S]]
AppendEntry(s, c) ==
  LET a == s.A[c.a]
      x == Exported(s, c, TRUE)
  IN IF Struck(c) /\ c.seenst # "OK" THEN Torn(s, c, c.seenst, {c.seenst})
     ELSE IF \E i \in 1..Len(a.ents) : a.ents[i].g = c.g /\ a.ents[i].e = c.e THEN Answer(s, "EXISTS", [err |-> TRUE])
     ELSE IF Members(s, c) = <<>> THEN Ret(s, "GROUP_MISSING")
     ELSE IF x.st # "OK" THEN Ret(s, x.st)
     ELSE Ret([s EXCEPT !.A[c.a].ents = Append(@, x.ent)], "OK")
RECURSIVE ExportAll(_, _, _)
ExportAll(s, c, E) ==
  IF E = {} THEN <<>>
  ELSE LET e == CHOOSE e \in E : TRUE IN <<Exported(s, [c EXCEPT !.e = e], FALSE)>> \o ExportAll(s, c, E \ {e})
AppendGroup(s, c) ==
  LET a == s.A[c.a]
      l == ConfigList(s, c).r
      q == ExportAll(s, c, {e.name : e \in l.list})
      bad == {q[i].st : i \in 1..Len(q)} \ {"OK"}
  IN IF Struck(c) /\ c.seenst # "OK" THEN Torn(s, c, c.seenst, {c.seenst})
     ELSE IF \E i \in 1..Len(a.ents) : a.ents[i].g = c.g THEN Answer(s, "EXISTS", [err |-> TRUE])
     ELSE IF Members(s, c) = <<>> THEN Ret(s, "GROUP_MISSING")
     ELSE IF l.st # "OK" THEN Ret(s, l.st)
     ELSE IF l.list = {} THEN Ret(s, "NOT_EXIST")
     ELSE IF bad # {} THEN Torn(s, c, "", bad)
     ELSE Ret([s EXCEPT !.A[c.a].ents = @ \o [i \in 1..Len(q) |-> q[i].ent]], "OK")

\* ---------------------------------------------------------------- finalizing (C22, C24)
Named_(p) == IF Suffix(".disir", p) THEN p ELSE p \o ".disir"
Backup(p) == p \o ".backup"
Forget(s, h) == [s EXCEPT !.A = Without(@, h)]
\* What is seen of the archive at a path.
Index(f) == {[b |-> f.ents[i].b, g |-> f.ents[i].g, e |-> f.ents[i].e, ver |-> f.ents[i].ver, shape |-> f.ents[i].shape] : i \in 1..Len(f.ents)}
Sight(s, p) ==
  IF p \in s.dirs THEN [path |-> p, k |-> "other", index |-> {}, extra |-> {}]
  ELSE IF p \notin DOMAIN s.F THEN [path |-> p, k |-> "absent", index |-> {}, extra |-> {}]
  ELSE IF s.F[p].k = "arc" /\ ~s.F[p].dub THEN [path |-> p, k |-> "arc", index |-> Index(s.F[p]), extra |-> s.F[p].extra]
  ELSE [path |-> p, k |-> "other", index |-> {}, extra |-> {}]
Arc(a) == [k |-> "arc", ents |-> a.ents, extra |-> a.extra, dub |-> FALSE]
At1(s, p, f) == [s EXCEPT !.F = (p :> f) @@ @]
\* [st, s, kept]
Finalizing(s, c) ==
  LET a == s.A[c.a]
      t == Named_(c.path)
      d == Up(t)
      gone == Forget(s, c.a)
      done == At1(gone, t, Arc(a))
      fail == [st |-> "FS_ERROR", s |-> gone, kept |-> FALSE]
      no(st) == [st |-> st, s |-> s, kept |-> TRUE]
  IN IF ~Has(c, "path") THEN [st |-> "OK", s |-> gone, kept |-> FALSE]
     ELSE IF c.odd \in {"empty", "slash", "long"} THEN no("INVALID_ARGUMENT")
     ELSE IF c.odd = "nodir" THEN fail
     ELSE IF c.odd # "edge" /\ d \notin s.dirs /\ d \notin DOMAIN s.F THEN no("NOT_EXIST")
     ELSE IF a.ents = <<>> THEN [fail EXCEPT !.st = "NO_CAN_DO"]
     ELSE IF c.odd = "edge" \/ d \in DOMAIN s.F \/ t \in s.dirs \/ LongName(t) THEN fail
     ELSE IF a.ex = "" THEN [st |-> "OK", s |-> done, kept |-> FALSE]
     ELSE IF a.ex # t THEN IF a.ex \in DOMAIN s.F THEN [st |-> "OK", s |-> [done EXCEPT !.F = Without(@, a.ex)], kept |-> FALSE]
                           ELSE [fail EXCEPT !.s = done]
     ELSE IF a.sp # Named_(c.sp) THEN [st |-> "OK", s |-> done, kept |-> FALSE]
     ELSE IF t \notin DOMAIN s.F \/ LongName(Backup(t)) \/ Backup(t) \in s.dirs THEN fail
     ELSE [st |-> "OK", s |-> [done EXCEPT !.F = Without(@, Backup(t))], kept |-> FALSE]
FinalizeArchive(s, c) ==
  LET z == Finalizing(s, c)
  IN Answer(z.s, z.st, [kept |-> z.kept, look |-> [i \in 1..Len(c.look) |-> Sight(z.s, c.look[i])]] @@ Cleaned(z.s))
\* With an operation failing, or the process ending in front of one (C24): the archive that was at the
\* path is there, or the new one is; after the end of the process it may be the backup that is there.
\* What is seen (c.sights: path -> what) decides which of these it was.
StruckFinalize(s, c) ==
  LET a == s.A[c.a]
      t == Named_(c.path)
      z == Finalizing(s, c)
      died == c.fault.k = "crash"
      was == Forget(s, c.a)
      new == At1(was, t, Arc(a))
      lost(w) == IF a.ex # "" /\ a.ex # t /\ a.ex \in DOMAIN w.F THEN {w, [w EXCEPT !.F = Without(@, a.ex)]} ELSE {w}
      moved(w) == IF a.ex = t /\ t \in DOMAIN was.F THEN {At1(w, Backup(t), was.F[t])} ELSE {}
      \* an older backup, left by a process that ended, may give way to the newer one
      stale == IF a.ex = t /\ t \in DOMAIN was.F THEN {[was EXCEPT !.F = Without(@, Backup(t))]} ELSE {}
      ends == {was, z.s} \cup stale \cup lost(new) \cup moved(new) \cup (IF died THEN moved([was EXCEPT !.F = Without(@, t)]) ELSE {})
      seen(w) == [i \in 1..Len(c.look) |-> Sight(w, c.look[i])]
      fits == {w \in ends : seen(w) = [i \in 1..Len(c.sights) |-> [path |-> c.sights[i].path, k |-> c.sights[i].k, index |-> Range(c.sights[i].index), extra |-> Range(c.sights[i].extra)]]}
      f == FinalizeArchive(s, c)
  IN IF z.kept THEN IF died THEN [s |-> was, r |-> [look |-> seen(was)]] ELSE f
     ELSE IF c.fault.k = "fail" /\ ~c.hit THEN f
     ELSE IF c.seenst = "DONE" THEN [s |-> z.s, r |-> [look |-> seen(z.s)]]
     ELSE IF c.seenst = "OK" THEN [s |-> z.s, r |-> [st |-> z.st, kept |-> FALSE, look |-> seen(z.s)]]
     ELSE IF fits = {} THEN [s |-> was, r |-> [look |-> seen(was)]]
     ELSE [s |-> CHOOSE w \in fits : TRUE, r |-> [kept |-> FALSE]]

\* ---------------------------------------------------------------- importing (C23)
Importable == {"OK", "CONFLICT", "CONFLICTING_SEMVER"}
Verdict(s, st, conf) == [s |-> s, st |-> st, conf |-> conf]
Classify(s, c, t, key) ==
  LET cc == [i |-> c.i, g |-> t.g, e |-> t.e, len |-> 0]
      p == Members(s, cc)[1]
      w == MoldRead(s, p, t.e)
      anon == "#" \o ToString(Cardinality(DOMAIN s.molds))
      s1 == [s EXCEPT !.molds = (anon :> w.m) @@ @]
      rd == IF t.doc.k = "doc" /\ t.doc.fmt = p.fmt THEN ReadDoc(s1, t.doc, anon, key) ELSE Refused(s1, "FS_ERROR")
      x == rd.s.C[key]
      path == ConfigPath(p, t.e)
      d == s.F[path]
      ex == IF d.k = "doc" /\ d.fmt = p.fmt THEN ReadDoc(rd.s, d, anon, "(existing)") ELSE Refused(rd.s, "FS_ERROR")
      y == ex.s.C["(existing)"]
      vx == rd.s.h[x].ver
      same == Diff(ex.s, y, x) = <<>>
  IN IF Members(s, cc) = <<>> THEN Verdict(s, "NO_CAN_DO", 0)
     ELSE IF p.name # t.b \/ ~Can(p, "mread") \/ MoldOf(s, p, t.e).st # "EXISTS" THEN Verdict(s, "NO_CAN_DO", 0)
     ELSE IF w.st # "OK" \/ ~Can(p, "cfdread") THEN Verdict(s, "NO_CAN_DO", 0)
     ELSE IF rd.r.st = "CONFLICTING_SEMVER" THEN Verdict(s, "NO_CAN_DO", 0)
     ELSE IF rd.r.st # "OK" THEN Verdict(s, "CONFIG_INVALID", 0)
     ELSE IF ~Can(p, "cread") \/ At(s, path) = "FS_ERROR" THEN Verdict(s, "NO_CAN_DO", 0)
     ELSE IF path \notin DOMAIN s.F THEN Verdict(rd.s, IF vx = w.m.ver THEN "OK" ELSE "CONFLICTING_SEMVER", 0)
     ELSE IF ex.r.st = "INVALID_CONTEXT" THEN Verdict(s, "CONFIG_INVALID", 0)
     ELSE IF ex.r.st = "CONFLICTING_SEMVER" THEN Verdict(rd.s, "CONFLICTING_SEMVER", 1)
     ELSE IF ex.r.st # "OK" THEN Verdict(s, "NO_CAN_DO", 0)
     ELSE IF ~same THEN Verdict(rd.s, "CONFLICT", 1)
     ELSE Verdict(rd.s, IF ex.s.h[y].ver = vx THEN "OK" ELSE "CONFLICTING_SEMVER", 1)
Key(c, t) == "import/" \o c.p \o "/" \o t.g \o "/" \o t.e
RECURSIVE ClassifyAll(_, _, _, _)
ClassifyAll(s, c, ents, i) ==
  IF i > Len(ents) THEN [s |-> s, q |-> <<>>]
  ELSE LET t == ents[i]
           v == Classify(s, c, t, Key(c, t))
           z == ClassifyAll(v.s, c, ents, i + 1)
       IN [s |-> z.s, q |-> <<[b |-> t.b, g |-> t.g, e |-> t.e, ver |-> t.ver, st |-> v.st, conf |-> v.conf, imp |-> 0, c |-> Key(c, t)]>> \o z.q]
\* The state an entry is told to be in.
Status(t) == IF t.st = "OK" /\ t.conf = 1 THEN "CONFLICT" ELSE t.st
Import(s, c) ==
  LET f == s.F[c.path]
      z == ClassifyAll(s, c, f.ents, 1)
      no(st) == Answer(s, st, [got |-> FALSE] @@ Cleaned(s))
      refused(S) == [s |-> s, r |-> [oneof |-> S, got |-> FALSE] @@ Cleaned(s)]
  IN IF Struck(c) /\ ~c.got THEN refused(BadArchive)
     ELSE IF c.odd # "" THEN refused({"NOT_EXIST", "FS_ERROR", "INVALID_ARGUMENT"})
     ELSE IF c.path \notin DOMAIN s.F THEN no(IF c.path \in s.dirs THEN "FS_ERROR" ELSE "NOT_EXIST")
     ELSE IF f.k # "arc" \/ (f.dub /\ ~c.got) THEN refused(BadArchive)
     ELSE [s |-> [z.s EXCEPT !.P = (c.p :> z.q) @@ @],
           r |-> [st |-> "OK", got |-> TRUE, n |-> Len(z.q),
                  list |-> {[g |-> z.q[i].g, e |-> z.q[i].e, ver |-> z.q[i].ver, st |-> Status(z.q[i])] : i \in 1..Len(z.q)}] @@ Cleaned(s)]
Place(s, c) == IF Has(c, "idx") THEN 0 ELSE FirstIdx(s.P[c.p], LAMBDA t : t.g = c.g /\ t.e = c.e)
EntryStatus(s, c) ==
  LET i == Place(s, c)
  IN Ret(s, IF Has(c, "idx") THEN "INVALID_ARGUMENT" ELSE IF i = 0 THEN "HARNESS noentry" ELSE Status(s.P[c.p][i]))
\* Bring the config of an entry up to the version of its mold, keeping its own values.
RECURSIVE Settle(_, _, _)
Settle(z, discard, u) ==
  IF z.r.st # "CONFLICT" THEN z
  ELSE LET q == StepU(z.s, [op |-> "updconf", u |-> u, v |-> [s |-> ""]])
           one(v) == StepU(q.s, [op |-> "updres", u |-> u, v |-> [s |-> v]])
           own == one(q.r.keyval)
           take == IF own.r.st = "RESTRICTION_VIOLATED" /\ discard THEN one(q.r.mold) ELSE own
       IN IF take.r.st # "OK" THEN take ELSE Settle(UpdRun(take.s, u), discard, u)
Updated(s, t, discard) ==
  LET old == s.C[t.c]
      z == StartUpdate(s, [c |-> t.c, ver |-> NoVer, u |-> "(import)"])
      e == Settle(z, discard, "(import)")
      fin == StepU(e.s, [op |-> "updfin", u |-> "(import)", v |-> [s |-> ""]] @@ (IF e.r.st = "OK" THEN [as |-> t.c] ELSE Empty))
  IN IF ~z.r.upd THEN [s |-> s, st |-> z.r.st]
     ELSE [s |-> IF e.r.st = "OK" THEN Kill(fin.s, old) ELSE fin.s, st |-> e.r.st]
ResolveEntry(s, c) ==
  LET i == Place(s, c)
      t == s.P[c.p][i]
      updates == c.opt \in {"UPDATE", "UPDATE_WITH_DISCARD"}
      u == IF updates THEN Updated(s, t, c.opt = "UPDATE_WITH_DISCARD") ELSE [s |-> s, st |-> "OK"]
      valid == InvalidList(u.s, u.s.C[t.c]) = <<>>
  IN IF Has(c, "idx") THEN Ret(s, "INVALID_ARGUMENT")
     ELSE IF i = 0 THEN Ret(s, "HARNESS noentry")
     ELSE IF t.st \notin Importable THEN Ret(s, "NO_CAN_DO")
     ELSE IF c.opt = "DISCARD" THEN Ret([s EXCEPT !.P[c.p][i].imp = 0], "OK")
     ELSE IF t.st = "OK" /\ t.imp = 1 THEN Ret(s, "NO_CAN_DO")
     ELSE IF c.opt \notin {"DO", "FORCE", "UPDATE", "UPDATE_WITH_DISCARD"} THEN Ret(s, "INVALID_ARGUMENT")
     ELSE IF c.opt = "DO" /\ t.conf = 1 THEN Ret(s, "NO_CAN_DO")
     ELSE IF updates /\ t.st = "OK" THEN Ret(s, "NO_CAN_DO")
     ELSE IF u.st # "OK" THEN Ret(u.s, u.st)
     ELSE IF ~valid THEN Ret(u.s, "INVALID_CONTEXT")
     ELSE Ret([u.s EXCEPT !.P[c.p][i].imp = 1, !.P[c.p][i].st = "OK"], "OK")

\* ---------------------------------------------------------------- writing what was imported
Chosen(t) == t.st = "OK" /\ t.imp = 1
Out(t, st, ver) ==
  IF t.st \notin Importable THEN [k |-> "Not importable", e |-> t.e, ver |-> 0]
  ELSE IF t.imp = 0 THEN [k |-> "Discarded", e |-> t.e, ver |-> 0]
  ELSE IF st = "OK" THEN [k |-> "Imported", e |-> t.e, ver |-> ver]
  ELSE [k |-> "Failed", e |-> t.e, ver |-> 0]
\* c.trees: path -> what the text says; c.outcome: for what happened under a fault.
PathTree(c, path) == LET i == FirstIdx(c.trees, LAMBDA t : t.path = path) IN IF i = 0 THEN Empty ELSE [tree |-> c.trees[i].tree]
RECURSIVE WriteAll(_, _, _, _)
WriteAll(s, c, q, i) ==
  IF i > Len(q) THEN [s |-> s, out |-> <<>>, texts |-> {}]
  ELSE LET t == q[i]
           p == Members(s, [i |-> c.i, g |-> t.g])[1]
           path == ConfigPath(p, t.e)
           w == WriteConfigEntry(s, [i |-> c.i, g |-> t.g, e |-> t.e, len |-> 0, c |-> t.c, order |-> c.order, fmt |-> ""] @@ PathTree(c, path))
           hit == Struck(c) /\ \E j \in 1..Len(c.outcome) : c.outcome[j].k = "Failed" /\ c.outcome[j].e = t.e
           st == IF hit THEN "FS_ERROR" ELSE w.r.st
           ok == Chosen(t) /\ st = "OK"
           z == WriteAll(IF ok THEN w.s ELSE s, c, q, i + 1)
       IN [s |-> z.s, out |-> <<Out(t, st, s.h[s.C[t.c]].ver)>> \o z.out,
           texts |-> z.texts \cup (IF ok THEN {[path |-> path, shape |-> IF p.fmt = "json" THEN w.r.doc ELSE NoShape]} ELSE {})]
HowMany(q) == {[k |-> o.k, e |-> o.e, ver |-> o.ver, n |-> Cardinality({i \in 1..Len(q) : q[i] = o})] : o \in Range(q)}
RECURSIVE KillImports(_, _, _)
KillImports(s, q, i) ==
  IF i > Len(q) THEN s
  ELSE LET hd == q[i].c
           s1 == IF hd \in DOMAIN s.C THEN [Kill(s, s.C[hd]) EXCEPT !.C = Without(@, hd)] ELSE s
       IN KillImports(s1, q, i + 1)
FinishImport(s, c) ==
  LET q == s.P[c.p]
      z == WriteAll(s, c, q, 1)
      end(w) == [KillImports(w, q, 1) EXCEPT !.P = Without(@, c.p)]
  IN IF c.opt = "DISCARD" THEN Answer(end(s), "OK", [kept |-> FALSE, report |-> FALSE])
     ELSE IF c.opt # "DO" THEN Answer(s, "INVALID_ARGUMENT", [kept |-> TRUE, report |-> FALSE])
     ELSE Answer(end(z.s), "OK", [kept |-> FALSE, report |-> c.report, texts |-> z.texts]
                                 @@ IF c.report THEN [lines |-> HowMany(z.out)] ELSE Empty)

\* ---------------------------------------------------------------- the machine
AStep(s, c) ==
  CASE c.op \in {"reset", "end"} -> [EStep(s, c) EXCEPT !.s = A0]
    [] c.op = "mkd" -> Ret([s EXCEPT !.dirs = @ \cup Ups(c.path)], "OK")
    [] c.op = "aput" -> Ret([At1(s, c.path, IF c.arc.k = "arc" THEN [c.arc EXCEPT !.extra = Range(@)] ELSE c.arc) EXCEPT !.dirs = @ \cup Ups(Up(c.path))], "OK")
    [] c.op = "abegin" -> BeginArchive(s, c)
    [] c.op = "aentry" -> AppendEntry(s, c)
    [] c.op = "agroup" -> AppendGroup(s, c)
    [] c.op = "afin" -> IF Struck(c) /\ Has(c, "path") THEN StruckFinalize(s, c) ELSE FinalizeArchive(s, c)
    [] c.op = "aimport" -> Import(s, c)
    [] c.op = "istat" -> EntryStatus(s, c)
    [] c.op = "ires" -> ResolveEntry(s, c)
    [] c.op = "ifin" -> FinishImport(s, c)
    [] OTHER -> EStep(s, c)
=============================================================================
