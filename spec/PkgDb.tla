------------------------------- MODULE PkgDb -------------------------------
(***************************************************************************)
(* The installed-package database and the file tree it manages: what       *)
(* pkgadd (install / upgrade / force) and pkgrm do to them.                *)
(*                                                                         *)
(* State   st = [db, fs, log, rules, trig]                                 *)
(*   db    : installed name -> [meta, auto, files, alias, prer, postr, probe]     *)
(*   fs    : path -> node (module Paths), the whole tree below the target  *)
(*           root except the database directory itself                     *)
(*   log   : what the package scripts reported, in order                   *)
(*   rules : the rules file, a sequence of [ev, pat, act]; ev "BAD" stands  *)
(*           for a line that is not a rule, pat.k "bad" for a pattern that  *)
(*           is not a regular expression                                   *)
(*   trig  : the system helpers the last command ran, a set of             *)
(*           "helper arguments" (a sequence in recorded states)            *)
(*                                                                         *)
(* Archive a = [name, meta, arch, alias, ents, probe, pre, post, prer,     *)
(*              postr, bad]; ents is the sequence of tar entries.          *)
(* Scripts are tokens: "" absent, "x:ok" or "x:fail".  A script appends    *)
(* <<kind, token, probe present?>> to the log when it runs.                *)
(***************************************************************************)
EXTENDS Paths

REJ == "var/lib/pkg/rejected"
\* paths a command may legitimately touch as a side effect of its bookkeeping
InRej(p) == p = REJ \/ Under(p, REJ) \/ p \in Ancestors(REJ)
Junk == {".PRE", ".META", ".MTREE", ".POST", ".PRER", ".POSTR", ".INFO", ".README"}

Names(st)    == DOMAIN st.db
AliasesOf(st) == UNION {Range(st.db[n].alias) : n \in Names(st)}
Known(st)    == Names(st) \cup AliasesOf(st)

EntryOf(x)   == IF x.n.t = "d" THEN x.p \o "/" ELSE x.p
Manifest(a)  == {EntryOf(a.ents[i]) : i \in DOMAIN a.ents}

(* ---- rules: the last matching rule of an event decides ----------------- *)
RuleSays(rules, ev, e, default) ==
  LET hit == {i \in DOMAIN rules : rules[i].ev = ev /\ Matches(rules[i].pat, e)}
  IN  IF hit = {} THEN default
      ELSE rules[CHOOSE i \in hit : \A j \in hit : j <= i].act
(* A pattern that is no regular expression is noticed when it is tried: when *)
(* no later rule of the kind matches first.                                  *)
TriggerEv == {"LDCONF", "INFO", "ICONS", "FONTS", "SCHEMAS", "DESKTOP_DB", "MIME_DB",
              "QUERY_PIXBUF", "GIO_QUERY", "QUERY_IMOD3", "QUERY_IMOD2"}
BadTried(rules, evs, E) ==
  \E i \in DOMAIN rules, e \in E :
    /\ rules[i].ev \in evs /\ rules[i].pat.k = "bad"
    /\ \A j \in DOMAIN rules : j > i /\ rules[j].ev \in evs => ~Matches(rules[j].pat, e)
ParseError(rules) == \E i \in DOMAIN rules : rules[i].ev = "BAD"

Installable(rules, E) == {e \in E : RuleSays(rules, "INSTALL", e, TRUE)}
Protected(rules, E)   == {e \in E : ~RuleSays(rules, "UPGRADE", e, TRUE)}

ScriptFails(tok) == Len(tok) > 5 /\ SubSeq(tok, Len(tok) - 4, Len(tok)) \in {":fail", ":kill"}
Ran(kind, tok, probe, fs) == <<[k |-> kind, s |-> tok, seen |-> probe \in DOMAIN fs]>>

OthersFiles(db, name) == UNION {Range(db[n].files) : n \in DOMAIN db \ {name}}

(* Files of the new package that are on disk or in another record, not      *)
(* directories, and not already this package's own.                         *)
Conflicts(st, name, E) ==
  LET own == IF name \in Names(st) THEN Range(st.db[name].files) ELSE {}
  IN  {e \in E : /\ ~IsDirEntry(e)
                 /\ e \notin own
                 /\ (e \in OthersFiles(st.db, name) \/ PathOf(e) \in DOMAIN st.fs)}

SetToSeqOf(S) == SetToSeq(S)

(* ---- extraction, one tar entry at a time -------------------------------- *)
SameAsDisk(new, old) ==
  /\ new.t = old.t /\ new.m = old.m
  /\ \/ new.t = "d"
     \/ new.t = "f" /\ new.c = ""
     \/ new.c = old.c

\* A hard link (t = "h", c = the path linked to) is the file it links to.
Hard(fs, x) == IF x.n.t = "h" /\ x.n.c \in DOMAIN fs THEN [x EXCEPT !.n = fs[x.n.c]] ELSE x

ExtractOne(fs, y, keep, skip) ==
  LET e == EntryOf(y)  x == Hard(fs, y) IN
  IF e \in skip \/ x.n.t = "h" THEN fs
  ELSE IF e \in keep /\ x.p \in DOMAIN fs
       THEN LET rp  == REJ \o "/" \o x.p
                fs1 == Put(fs, rp, x.n)
            IN  IF SameAsDisk(x.n, fs[x.p]) THEN RemoveUp(fs1, rp, REJ) ELSE fs1
       ELSE Put(fs, x.p, x.n)

Extract(fs, ents, keep, skip) ==
  FoldLeft(LAMBDA f, x : ExtractOne(f, x, keep, skip), fs, ents)

Refused(st)   == [st |-> st, rc |-> 1]
CleanRoot(fs) == Without(fs, Junk)

(* ---- post-install triggers: which helpers run ---------------------------- *)
HelperRuns(ev, e) ==
  CASE ev = "LDCONF"       -> {<<"usr/bin/ldconfig", "-r ROOT">>}
    [] ev = "INFO"         -> {<<"usr/bin/install-info", "--info-dir=usr/share/info " \o e>>}
    [] ev = "ICONS"        -> {<<"usr/bin/gtk-update-icon-cache", "-f -t " \o e>>}
    [] ev = "FONTS"        -> {<<"usr/bin/mkfontscale", e>>, <<"usr/bin/mkfontdir", e>>,
                               <<"usr/bin/fc-cache", e>>}
    [] ev = "SCHEMAS"      -> {<<"usr/bin/glib-compile-schemas", e>>}
    [] ev = "DESKTOP_DB"   -> {<<"usr/bin/update-desktop-database", "-q " \o e>>}
    [] ev = "MIME_DB"      -> {<<"usr/bin/update-mime-database", "-n " \o e>>}
    [] ev = "QUERY_PIXBUF" -> {<<"usr/bin/gdk-pixbuf-query-loaders", "--update-cache">>}
    [] ev = "GIO_QUERY"    -> {<<"usr/bin/gio-querymodules", "usr/lib/gio/modules">>}
    [] ev = "QUERY_IMOD3"  -> {<<"usr/bin/gtk-query-immodules-3.0", "--update-cache">>}
    [] ev = "QUERY_IMOD2"  -> {<<"usr/bin/gtk-query-immodules-2.0", "--update-cache">>}
    [] OTHER               -> {}
\* the helper is there (the library cache also wants its configuration)
Present(h, fs) == /\ h[1] \in DOMAIN fs
                  /\ h[1] = "usr/bin/ldconfig" => "etc/ld.so.conf" \in DOMAIN fs
TriggerOf(rules, e) ==
  LET hit == {i \in DOMAIN rules : rules[i].ev \in TriggerEv /\ Matches(rules[i].pat, e)}
  IN  IF hit = {} THEN "none"
      ELSE LET r == rules[CHOOSE i \in hit : \A j \in hit : j <= i]
           IN IF r.act THEN r.ev ELSE "none"
Helpers(rules, inst, fs) ==
  {h[1] \o " " \o h[2] : h \in {x \in UNION {HelperRuns(TriggerOf(rules, e), e) : e \in inst} : Present(x, fs)}}

(* ---- pkgadd ------------------------------------------------------------- *)
PreNode(tok) == [t |-> "f", c |-> tok, m |-> "755", tm |-> ""]

Pkgadd(st0, op) ==
  LET a    == op.arc
      st   == [st0 EXCEPT !.fs = CleanRoot(@)]
      name == a.name
  IN
  IF op.how # "ok"                         THEN Refused(st)
  ELSE IF a.bad # "none"                        THEN Refused(st)
  ELSE IF a.arch = "other" /\ op.root = "/" THEN Refused(st)
  ELSE IF ParseError(st.rules)             THEN Refused(st)
  ELSE IF (IF op.u THEN name \notin Names(st) ELSE name \in Known(st)) THEN Refused(st)
  ELSE IF BadTried(st.rules, {"INSTALL"}, Manifest(a))
            \/ BadTried(st.rules, TriggerEv, Installable(st.rules, Manifest(a))) THEN Refused(st)
  ELSE
  LET all   == Manifest(a)
      inst  == Installable(st.rules, all)
      skip  == all \ inst
      runs  == ~op.i
      st1   == IF runs /\ a.pre # ""
               THEN [st EXCEPT !.log = @ \o Ran("pre", a.pre, a.probe, st.fs)]
               ELSE st
  IN
  IF runs /\ ScriptFails(a.pre)
  THEN Refused([st1 EXCEPT !.fs = Put(@, ".PRE", PreNode(a.pre))])
  ELSE
  LET conf == Conflicts(st1, name, inst) IN
  IF conf # {} /\ ~op.f THEN Refused(st1)
  ELSE IF op.u /\ BadTried(st.rules, {"UPGRADE"}, inst) THEN Refused(st1)
  ELSE
  LET \* -- force: take the conflicting files away from everybody else
      keepC == IF op.u THEN Protected(st1.rules, conf) ELSE {}
      db2   == [n \in Names(st1) |->
                  IF Range(st1.db[n].files) \cap conf = {} THEN st1.db[n]
                  ELSE [st1.db[n] EXCEPT !.files = SetToSeqOf(Range(@) \ conf)]]
      fs2   == DeleteEntries(st1.fs, conf \ keepC)
      \* -- upgrade: the old version goes, except protected and shared files
      auto  == op.u /\ db2[name].auto
      keep  == IF op.u THEN Protected(st1.rules, inst) ELSE {}
      fs3   == IF op.u
               THEN DeleteEntries(fs2, (Range(db2[name].files) \ keep)
                                         \ OthersFiles(db2, name))
               ELSE fs2
      \* -- install
      fs4   == Extract(fs3, a.ents, keep, skip)
      rec   == [meta |-> a.meta, auto |-> auto, files |-> SetToSeqOf(inst),
                alias |-> a.alias, prer |-> a.prer, postr |-> a.postr,
                probe |-> IF a.prer = "" /\ a.postr = "" THEN "" ELSE a.probe]
      db4   == (name :> rec) @@ Without(db2, {name})
      log4  == IF runs /\ a.post # ""
               THEN st1.log \o Ran("post", a.post, a.probe, fs4) ELSE st1.log
  IN [st |-> [st1 EXCEPT !.db = db4, !.fs = fs4, !.log = log4,
                      !.trig = SetToSeqOf(Helpers(st1.rules, inst, fs4))], rc |-> 0]

(* ---- pkgrm -------------------------------------------------------------- *)
Pkgrm(st0, op) ==
  LET st == [st0 EXCEPT !.fs = CleanRoot(@)] IN
  IF op.how # "ok" THEN Refused(st)
  ELSE IF ParseError(st.rules) THEN Refused(st)
  ELSE IF op.name \notin Names(st) THEN Refused(st)
  ELSE
  LET r   == st.db[op.name]
      st1 == IF r.prer # ""
             THEN [st EXCEPT !.log = @ \o Ran("prer", r.prer, r.probe, st.fs)]
             ELSE st
  IN
  IF ScriptFails(r.prer) THEN Refused(st1)
  ELSE
  LET fs2 == DeleteEntries(st1.fs, Range(r.files) \ OthersFiles(st1.db, op.name))
      log2 == IF r.postr # ""
              THEN st1.log \o Ran("postr", r.postr, r.probe, fs2) ELSE st1.log
  IN [st |-> [st1 EXCEPT !.db = Without(@, {op.name}), !.fs = fs2, !.log = log2],
      rc |-> 0]

(* ---- what the administrator does behind the tools' back ------------------ *)
User(st, op) ==
  CASE op.act = "write" ->
         [st |-> [st EXCEPT !.fs = Put(@, op.path, op.node)], rc |-> 0]
    [] op.act = "delete" ->
         [st |-> [st EXCEPT !.fs = Without(@, {op.path})], rc |-> 0]
    [] op.act = "rules" ->
         [st |-> [st EXCEPT !.rules = op.rules], rc |-> 0]

(* A read-only command: only the leftovers of an aborted install go.        *)
Reader(st) == [st |-> [st EXCEPT !.fs = CleanRoot(@)], rc |-> 0]

Apply(st0, op) ==
  LET st == [st0 EXCEPT !.trig = <<>>] IN
  CASE op.cmd = "pkgadd" -> Pkgadd(st, op)
    [] op.cmd = "pkgrm"  -> Pkgrm(st, op)
    [] op.cmd = "user"   -> User(st, op)
    [] op.cmd = "query"  -> Reader(st)

(* What of the tree is compared: not the metadata files of an aborted       *)
(* command, and not which directories stay behind in the rejected area.     *)
View(fs) == [p \in {q \in DOMAIN fs : q \notin Junk /\ ~(fs[q].t = "d" /\ InRej(q))} |-> fs[p]]

(* The record set is a set: JSON gives sequences, so compare normalised.    *)
NormRec(r) == [meta |-> Range(r.meta), auto |-> r.auto, files |-> Range(r.files),
               alias |-> Range(r.alias), prer |-> r.prer, postr |-> r.postr,
               probe |-> r.probe]
NormDb(db) == [n \in DOMAIN db |-> NormRec(db[n])]

(***************************************************************************)
(* The properties, as predicates over one transition (s, op, rc, t).  They *)
(* speak about observable behaviour only and do not use Apply.             *)
(***************************************************************************)
FilesOf(st, n) == Range(st.db[n].files)
RegPaths(E)    == {PathOf(e) : e \in {x \in E : ~IsDirEntry(x)}}
EntOf(a, p)    == LET I == {i \in DOMAIN a.ents : a.ents[i].p = p}
                  IN a.ents[CHOOSE i \in I : \A j \in I : j <= i]
EntAt(fs, a, p) == Hard(fs, EntOf(a, p)).n
Ok(op, cmd, rc) == op.cmd = cmd /\ rc = 0

(* A successful install records exactly the package and places its files.   *)
P_InstallExact(s, op, rc, t) ==
  (Ok(op, "pkgadd", rc) /\ ~op.u) =>
    LET a == op.arc  inst == Installable(s.rules, Manifest(a)) IN
    /\ DOMAIN t.db = DOMAIN s.db \cup {a.name}
    /\ FilesOf(t, a.name) = inst
    /\ Range(t.db[a.name].meta) = Range(a.meta)
    /\ t.db[a.name].auto = FALSE
    /\ \A p \in RegPaths(inst) : p \in DOMAIN t.fs /\ t.fs[p] = EntAt(t.fs, a, p)
    /\ \A e \in inst : IsDirEntry(e) => PathOf(e) \in DOMAIN t.fs /\ t.fs[PathOf(e)].t = "d"
    /\ \A p \in DOMAIN t.fs \ DOMAIN s.fs :
         \/ p \in {PathOf(e) : e \in inst}
         \/ \E e \in inst : p \in Ancestors(PathOf(e))

(* Everything a command does not concern keeps its bytes.                   *)
P_BystandersKept(s, op, rc, t) ==
  op.cmd \in {"pkgadd", "pkgrm"} =>
    LET mine == IF op.cmd = "pkgadd"
                THEN Manifest(op.arc) \cup (IF op.arc.name \in Names(s) THEN FilesOf(s, op.arc.name) ELSE {})
                ELSE IF op.name \in Names(s) THEN FilesOf(s, op.name) ELSE {}
        touch == {PathOf(e) : e \in mine}
    IN \A p \in DOMAIN s.fs :
         \/ p \in touch \/ p \in Junk \/ InRej(p)
         \/ p \in DOMAIN t.fs /\ t.fs[p] = s.fs[p]

(* Removal deletes exactly what only this package owned.                    *)
P_RemoveExact(s, op, rc, t) ==
  Ok(op, "pkgrm", rc) =>
    LET mine == FilesOf(s, op.name)
        oth  == OthersFiles(s.db, op.name)
    IN /\ op.name \in Names(s)
       /\ DOMAIN t.db = DOMAIN s.db \ {op.name}
       /\ \A n \in DOMAIN t.db : NormRec(t.db[n]) = NormRec(s.db[n])
       /\ \A p \in DOMAIN s.fs :
            p \in DOMAIN t.fs <=>
              \/ ~(\E e \in mine \ oth : PathOf(e) = p) /\ p \notin Junk
              \/ (p \o "/") \in mine /\ \E q \in DOMAIN t.fs : Under(q, p)
       /\ \A p \in DOMAIN t.fs : p \in DOMAIN s.fs /\ t.fs[p] = s.fs[p]

(* A file owned by somebody else or by nobody is never overwritten unasked. *)
P_ConflictRefused(s, op, rc, t) ==
  (op.cmd = "pkgadd" /\ ~op.f /\ op.arc.bad = "none" /\ ~ParseError(s.rules)
     /\ Conflicts(s, op.arc.name, Installable(s.rules, Manifest(op.arc))) # {}) =>
    /\ rc # 0
    /\ NormDb(t.db) = NormDb(s.db)
    /\ View(t.fs) = View(s.fs)

(* A regular file never has two owners.                                     *)
OneOwner(st) ==
  \A m, n \in Names(st) :
    m # n => \A e \in FilesOf(st, m) \cap FilesOf(st, n) : IsDirEntry(e)
P_OneOwner(s, op, rc, t) == OneOwner(s) => OneOwner(t)

(* Force takes ownership of precisely the conflicting files.                *)
P_ForceTransfers(s, op, rc, t) ==
  (Ok(op, "pkgadd", rc) /\ op.f) =>
    LET conf == Conflicts(s, op.arc.name, Installable(s.rules, Manifest(op.arc)))
    IN \A n \in DOMAIN s.db \ {op.arc.name} :
         /\ n \in DOMAIN t.db
         /\ FilesOf(t, n) = FilesOf(s, n) \ conf
         /\ Range(t.db[n].meta) = Range(s.db[n].meta) /\ t.db[n].auto = s.db[n].auto

(* After an upgrade only the new version exists.                            *)
P_UpgradeExact(s, op, rc, t) ==
  (Ok(op, "pkgadd", rc) /\ op.u) => op.arc.name \in Names(s) /\
    LET a == op.arc
        inst == Installable(s.rules, Manifest(a))
        prot == Protected(s.rules, inst)
        oth  == OthersFiles(t.db, a.name)
    IN /\ DOMAIN t.db = DOMAIN s.db
       /\ FilesOf(t, a.name) = inst
       /\ Range(t.db[a.name].meta) = Range(a.meta)
       /\ t.db[a.name].auto = s.db[a.name].auto
       /\ \A p \in RegPaths(inst \ prot) : p \in DOMAIN t.fs /\ t.fs[p] = EntAt(t.fs, a, p)
       /\ \A e \in FilesOf(s, a.name) \ (inst \cup oth) :
            ~IsDirEntry(e) => PathOf(e) \notin DOMAIN t.fs
       /\ \A e \in FilesOf(s, a.name) \ (inst \cup oth) :
            (IsDirEntry(e) /\ PathOf(e) \in DOMAIN t.fs) => HasChild(t.fs, PathOf(e))

(* A protected file keeps what the administrator has; the packaged version  *)
(* goes to the rejected area exactly when it differs.                       *)
P_ConfigProtected(s, op, rc, t) ==
  (Ok(op, "pkgadd", rc) /\ op.u) =>
    LET a == op.arc
        prot == Protected(s.rules, Installable(s.rules, Manifest(a)))
    IN \A p \in RegPaths(prot) :
         IF p \in DOMAIN s.fs
         THEN /\ p \in DOMAIN t.fs /\ t.fs[p] = s.fs[p]
              /\ LET rp == REJ \o "/" \o p IN
                 IF SameAsDisk(EntAt(t.fs, a, p), s.fs[p])
                 THEN rp \notin DOMAIN t.fs
                 ELSE rp \in DOMAIN t.fs /\ t.fs[rp] = EntAt(t.fs, a, p)
         ELSE p \in DOMAIN t.fs /\ t.fs[p] = EntAt(t.fs, a, p)

(* A file excluded by an install rule is neither written nor recorded.      *)
P_ExcludedAbsent(s, op, rc, t) ==
  Ok(op, "pkgadd", rc) =>
    LET a == op.arc
        excl == Manifest(a) \ Installable(s.rules, Manifest(a))
        old  == IF a.name \in Names(s) THEN FilesOf(s, a.name) ELSE {}
    IN /\ a.name \in DOMAIN t.db /\ FilesOf(t, a.name) \cap excl = {}
       /\ \A p \in RegPaths(excl \ old) :
            /\ (p \in DOMAIN t.fs) = (p \in DOMAIN s.fs)
            /\ p \in DOMAIN s.fs => t.fs[p] = s.fs[p]
       /\ \A p \in RegPaths(excl) : p \in DOMAIN t.fs => p \in DOMAIN s.fs /\ t.fs[p] = s.fs[p]

(* A refused command changes neither records nor files.                     *)
P_RefusalInert(s, op, rc, t) ==
  (op.cmd \in {"pkgadd", "pkgrm"} /\ rc # 0) =>
    /\ NormDb(t.db) = NormDb(s.db)
    /\ View(t.fs) = View(s.fs)

(* Commands that must be refused are.                                       *)
P_MustRefuse(s, op, rc, t) ==
  /\ (op.cmd \in {"pkgadd", "pkgrm"} /\ (op.how # "ok" \/ ParseError(s.rules))) => rc # 0
  /\ (op.cmd = "pkgadd" /\ (op.arc.bad # "none" \/ (op.arc.name \in Names(s) /\ ~op.u)
        \/ (op.arc.name \notin Names(s) /\ op.u)
        \/ (op.arc.arch = "other" /\ op.root = "/"))) => rc # 0
  /\ (op.cmd = "pkgrm" /\ op.name \notin Names(s)) => rc # 0

(* Scripts: which ran, in which order, seeing which state.                  *)
NewLog(s, t) == SubSeq(t.log, Len(s.log) + 1, Len(t.log))
P_Scripts(s, op, rc, t) ==
  /\ Len(t.log) >= Len(s.log) /\ SubSeq(t.log, 1, Len(s.log)) = s.log
  /\ (op.cmd = "pkgadd" /\ op.i) => t.log = s.log
  /\ (Ok(op, "pkgadd", rc) /\ ~op.i) =>
       LET a == op.arc
           pr == IF a.pre = "" THEN 0 ELSE 1
           po == IF a.post = "" THEN 0 ELSE 1
           nl == NewLog(s, t)
       IN /\ Len(nl) = pr + po
          /\ pr = 1 => nl[1].k = "pre" /\ nl[1].s = a.pre /\ ~ScriptFails(a.pre)
                         /\ nl[1].seen = (a.probe \in DOMAIN s.fs)
          /\ po = 1 => nl[pr + 1].k = "post" /\ nl[pr + 1].s = a.post
                         /\ nl[pr + 1].seen = (a.probe \in DOMAIN t.fs)
  /\ (Ok(op, "pkgrm", rc) /\ op.name \in Names(s)) =>
       LET r == s.db[op.name]
           pr == IF r.prer = "" THEN 0 ELSE 1
           po == IF r.postr = "" THEN 0 ELSE 1
           nl == NewLog(s, t)
       IN /\ Len(nl) = pr + po
          /\ pr = 1 => nl[1].k = "prer" /\ nl[1].s = r.prer /\ ~ScriptFails(r.prer)
                         /\ nl[1].seen = (r.probe \in DOMAIN s.fs)
          /\ po = 1 => nl[pr + 1].k = "postr" /\ nl[pr + 1].s = r.postr
                         /\ nl[pr + 1].seen = (r.probe \in DOMAIN t.fs)
  /\ (op.cmd = "pkgadd" /\ rc # 0) => \A i \in DOMAIN NewLog(s, t) : NewLog(s, t)[i].k = "pre"
  /\ (op.cmd = "pkgrm" /\ rc # 0) => \A i \in DOMAIN NewLog(s, t) : NewLog(s, t)[i].k = "prer"

(* Helpers run exactly for what was installed.                              *)
P_Triggers(s, op, rc, t) ==
  /\ Ok(op, "pkgadd", rc) =>
       LET inst == Installable(s.rules, Manifest(op.arc)) IN
       \A tool \in {h[1] : h \in UNION {HelperRuns(ev, "") : ev \in TriggerEv}} :
         {x \in Range(t.trig) : Len(x) > Len(tool) /\ SubSeq(x, 1, Len(tool) + 1) = tool \o " "}
           = IF Present(<<tool>>, t.fs)
             THEN {h[1] \o " " \o h[2] : h \in {y \in UNION {HelperRuns(TriggerOf(s.rules, e), e) : e \in inst} :
                                                  y[1] = tool}}
             ELSE {}
  /\ op.cmd = "pkgrm" => t.trig = <<>>

(* The manual/automatic mark changes only with the package itself.          *)
P_AutoKept(s, op, rc, t) ==
  op.cmd \in {"pkgadd", "pkgrm"} =>
    \A n \in DOMAIN s.db \cap DOMAIN t.db : t.db[n].auto = s.db[n].auto

PropNames == {"InstallExact", "BystandersKept", "RemoveExact", "ConflictRefused",
  "OneOwner", "ForceTransfers", "UpgradeExact", "ConfigProtected", "ExcludedAbsent",
  "RefusalInert", "MustRefuse", "Scripts", "Triggers", "AutoKept"}
Prop(n, s, op, rc, t) ==
  CASE n = "InstallExact"    -> P_InstallExact(s, op, rc, t)
    [] n = "BystandersKept"  -> P_BystandersKept(s, op, rc, t)
    [] n = "RemoveExact"     -> P_RemoveExact(s, op, rc, t)
    [] n = "ConflictRefused" -> P_ConflictRefused(s, op, rc, t)
    [] n = "OneOwner"        -> P_OneOwner(s, op, rc, t)
    [] n = "ForceTransfers"  -> P_ForceTransfers(s, op, rc, t)
    [] n = "UpgradeExact"    -> P_UpgradeExact(s, op, rc, t)
    [] n = "ConfigProtected" -> P_ConfigProtected(s, op, rc, t)
    [] n = "ExcludedAbsent"  -> P_ExcludedAbsent(s, op, rc, t)
    [] n = "RefusalInert"    -> P_RefusalInert(s, op, rc, t)
    [] n = "MustRefuse"      -> P_MustRefuse(s, op, rc, t)
    [] n = "Scripts"         -> P_Scripts(s, op, rc, t)
    [] n = "Triggers"        -> P_Triggers(s, op, rc, t)
    [] n = "AutoKept"        -> P_AutoKept(s, op, rc, t)

(* Which kinds of situation a step exercises (coverage, and the attribution *)
(* of a conformance mismatch).                                              *)
Classes(st, op) ==
  IF op.cmd = "pkgadd" THEN
    LET all  == Manifest(op.arc)
        inst == Installable(st.rules, all)
        conf == Conflicts(st, op.arc.name, inst)
        res  == Apply(st, op)
        fine == res.rc = 0
        prot == Protected(st.rules, inst)
    IN (IF fine /\ ~op.u THEN {"install"} ELSE {})
       \cup (IF fine /\ op.u THEN {"upgrade"} ELSE {})
       \cup (IF fine /\ op.f /\ conf # {} THEN {"force"} ELSE {})
       \cup (IF ~fine THEN {"refused"} ELSE {})
       \cup (IF ~fine /\ op.arc.bad # "none" THEN {"badarchive"} ELSE {})
       \cup (IF ~fine /\ ~op.f /\ conf # {} THEN {"conflict"} ELSE {})
       \cup (IF fine /\ all # inst THEN {"excluded"} ELSE {})
       \cup (IF fine /\ op.u /\ prot # {} THEN {"protected"} ELSE {})
       \cup (IF ~op.i /\ (op.arc.pre # "" \/ op.arc.post # "") THEN {"scripts"} ELSE {})
       \cup (IF fine /\ op.u /\ st.db[op.arc.name].auto THEN {"auto"} ELSE {})
       \cup (IF fine /\ \E i \in DOMAIN st.rules : st.rules[i].ev \in TriggerEv THEN {"triggers"} ELSE {})
       \cup (IF fine /\ Helpers(st.rules, inst, res.st.fs) # {} THEN {"fires"} ELSE {})
       \cup (IF ~fine /\ (op.how # "ok" \/ ParseError(st.rules)) THEN {"invalid"} ELSE {})
       \cup (IF op.root # "/" THEN {"altroot"} ELSE {})
  ELSE IF op.cmd = "pkgrm" THEN
    LET fine == Apply(st, op).rc = 0 IN
       (IF fine THEN {"remove"} ELSE {"refused"})
       \cup (IF op.name \in Names(st)
                 /\ (st.db[op.name].prer # "" \/ st.db[op.name].postr # "") THEN {"scripts"} ELSE {})
       \cup (IF fine /\ FilesOf(st, op.name) \cap OthersFiles(st.db, op.name) # {}
             THEN {"shared"} ELSE {})
  ELSE {"other"}
=============================================================================
