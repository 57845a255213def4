------------------------------ MODULE PkgCrash ------------------------------
(***************************************************************************)
(* The inside of one accepted pkgadd or pkgrm: the separate changes it      *)
(* makes to the disk, between any two of which the process may be killed.   *)
(* Where the order inside a group of changes does not matter the model      *)
(* leaves it open.                                                          *)
(*                                                                         *)
(* w = [st, ph, todo, k]: the disk (as in PkgDb), the phase, what is left   *)
(* to do in it, and the entry being extracted.                              *)
(***************************************************************************)
EXTENDS PkgDb

Target(op) == IF op.cmd = "pkgadd" THEN op.arc.name ELSE op.name
Inst(s, op) == Installable(s.rules, Manifest(op.arc))
ConfOf(s, op) == Conflicts(s, op.arc.name, Inst(s, op))
KeepOf(s, op) == IF op.u THEN Protected(s.rules, Inst(s, op)) ELSE {}

TornNode == [t |-> "f", c |-> "<torn>", m |-> "600", tm |-> "0"]

NewRec(s, op) == Apply(s, op).st.db[op.arc.name]

(* what each phase has to do when it is entered *)
Todo(s, op, ph, st) ==
  CASE ph = "strip"  -> {n \in Names(s) \ {Target(op)} : FilesOf(st, n) \cap ConfOf(s, op) # {}}
    [] ph = "delconf" -> ConfOf(s, op) \ (IF op.u THEN Protected(s.rules, ConfOf(s, op)) ELSE {})
    [] ph = "delold" -> IF op.u THEN (FilesOf(s, Target(op)) \ KeepOf(s, op)) \ OthersFiles(st.db, Target(op)) ELSE {}
    [] ph = "meta"   -> IF op.u THEN {"meta", "prer", "postr"} ELSE {}
    [] ph = "remove" -> FilesOf(s, Target(op)) \ OthersFiles(s.db, Target(op))
    [] OTHER         -> {}
After(ph) == CASE ph = "strip" -> "delconf" [] ph = "delconf" -> "delold" [] ph = "delold" -> "extract"
               [] ph = "extract" -> "meta" [] ph = "meta" -> "files" [] ph = "files" -> "done"
               [] ph = "remove" -> "drop" [] ph = "drop" -> "done"
Enter(s, op, ph, st) == [st |-> st, ph |-> ph, todo |-> Todo(s, op, ph, st), k |-> 1]

Start(s, op) == Enter(s, op, IF op.cmd = "pkgadd" THEN "strip" ELSE "remove", [s EXCEPT !.fs = CleanRoot(@), !.trig = <<>>])

(* one tar entry: what is on disk while it is being written, then after *)
Half(fs, y, keep, skip) ==
  LET e == EntryOf(y) IN
  IF e \in skip \/ y.n.t # "f" THEN {}
  ELSE LET p == IF e \in keep /\ y.p \in DOMAIN fs THEN REJ \o "/" \o y.p ELSE y.p
       IN {Without(fs, {p}), Put(fs, p, TornNode)}

\* the changes possible next
Succ(s, op, w) ==
  CASE w.ph \in {"strip", "delconf", "delold", "meta", "remove"} /\ w.todo # {} ->
         UNION {
           LET rest == [w EXCEPT !.todo = @ \ {x}] IN
           CASE w.ph = "strip" ->
                  {[rest EXCEPT !.st.db[x].files = SetToSeqOf(Range(@) \ ConfOf(s, op))]}
             [] w.ph = "meta" ->
                  LET nr == NewRec(s, op) n == Target(op) IN
                  {CASE x = "meta"  -> [rest EXCEPT !.st.db[n].meta = nr.meta, !.st.db[n].auto = nr.auto, !.st.db[n].alias = nr.alias]
                     [] x = "prer"  -> [rest EXCEPT !.st.db[n].prer = nr.prer]
                     [] x = "postr" -> [rest EXCEPT !.st.db[n].postr = nr.postr]}
             [] OTHER ->   \* deletions: what lies below goes first
                  IF IsDirEntry(x) /\ \E y \in w.todo : y # x /\ Under(PathOf(y), PathOf(x)) THEN {}
                  ELSE {[rest EXCEPT !.st.fs = DeleteEntries(@, {x})]}
           : x \in w.todo}
    [] w.ph = "extract" /\ w.k <= Len(op.arc.ents) ->
         LET y == op.arc.ents[w.k]  skip == Manifest(op.arc) \ Inst(s, op) IN
         {[w EXCEPT !.st.fs = ExtractOne(@, y, KeepOf(s, op), skip), !.k = @ + 1]}
    [] w.ph = "files" ->
         LET n == Target(op) IN
         {Enter(s, op, "done", [w.st EXCEPT !.db = (n :> [NewRec(s, op) EXCEPT !.auto = op.u /\ s.db[n].auto]) @@ Without(@, {n})])}
    [] w.ph = "drop" -> {Enter(s, op, "done", [w.st EXCEPT !.db = Without(@, {Target(op)})])}
    [] w.ph = "done" -> {}
    [] OTHER -> {Enter(s, op, After(w.ph), w.st)}

(* disks a kill may leave: as it is, or with the entry in progress torn *)
Disks(s, op, w) ==
  {w.st} \cup
  IF w.ph = "extract" /\ w.k <= Len(op.arc.ents)
  THEN {[w.st EXCEPT !.fs = f] :
          f \in Half(w.st.fs, op.arc.ents[w.k], KeepOf(s, op), Manifest(op.arc) \ Inst(s, op))}
  ELSE {}

(***************************************************************************)
(* What a kill may leave behind, whatever the implementation's order.       *)
(***************************************************************************)
OthersIntact(s, op, c) ==
  LET conf == IF op.cmd = "pkgadd" /\ op.f THEN ConfOf(s, op) ELSE {}
      tgt  == Target(op)
  IN /\ DOMAIN c.db \ {tgt} = DOMAIN s.db \ {tgt}
     /\ \A n \in DOMAIN s.db \ {tgt} :
          /\ FilesOf(c, n) \in {FilesOf(s, n), FilesOf(s, n) \ conf}
          /\ [NormRec(c.db[n]) EXCEPT !.files = {}] = [NormRec(s.db[n]) EXCEPT !.files = {}]

BystandersIntact(s, op, c) ==
  LET tgt   == Target(op)
      mine  == (IF op.cmd = "pkgadd" THEN Inst(s, op) ELSE {})
                 \cup (IF tgt \in Names(s) THEN FilesOf(s, tgt) ELSE {})
      foreign == OthersFiles(s.db, tgt)
                   \ (IF op.cmd = "pkgadd" THEN (IF op.f THEN ConfOf(s, op) ELSE {}) \cup {e \in mine : IsDirEntry(e)} ELSE {})
      touch == {PathOf(e) : e \in mine \ foreign}
  IN \A p \in DOMAIN s.fs :
       \/ p \in touch \/ p \in Junk \/ InRej(p)
       \/ p \in DOMAIN c.fs /\ c.fs[p] = s.fs[p]

ProtectedIntact(s, op, c) ==
  (op.cmd = "pkgadd" /\ op.u) =>
    \A p \in RegPaths(KeepOf(s, op)) :
      p \in DOMAIN s.fs => p \in DOMAIN c.fs /\ c.fs[p] = s.fs[p]

NothingNew(s, op, c) ==
  LET mine == IF op.cmd = "pkgadd" THEN Inst(s, op) ELSE {} IN
  \A p \in DOMAIN c.fs \ DOMAIN s.fs :
    \/ p \in Junk \/ InRej(p) \/ p \in {PathOf(e) : e \in mine}
    \/ \E e \in mine : p \in Ancestors(PathOf(e))

OwnRecord(s, op, c) ==
  LET n == Target(op) IN
  n \in Names(c) =>
    IF op.cmd = "pkgrm" THEN n \in Names(s) /\ NormRec(c.db[n]) = NormRec(s.db[n])
    ELSE LET new == NormRec(NewRec(s, op))  r == NormRec(c.db[n]) IN
         IF n \notin Names(s) THEN r = new
         ELSE LET old == NormRec(s.db[n]) IN
              /\ <<r.meta, r.auto>> \in {<<old.meta, old.auto>>, <<new.meta, new.auto>>}
              /\ r.files \in {old.files, new.files}
              /\ r.prer \in {old.prer, new.prer} /\ r.postr \in {old.postr, new.postr}
              /\ r.auto = old.auto

CrashNames == {"OthersIntact", "BystandersIntact", "ProtectedIntact", "NothingNew", "OwnRecord"}
CrashProp(x, s, op, c) ==
  CASE x = "OthersIntact" -> OthersIntact(s, op, c)
    [] x = "BystandersIntact" -> BystandersIntact(s, op, c)
    [] x = "ProtectedIntact" -> ProtectedIntact(s, op, c)
    [] x = "NothingNew" -> NothingNew(s, op, c)
    [] x = "OwnRecord" -> OwnRecord(s, op, c)

(***************************************************************************)
(* Recovery: the same request again, with force for what it left on disk.   *)
(* Nothing is left to do when the package to remove is gone, or the package *)
(* to install is listed: a record appears last.                             *)
(***************************************************************************)
Again(op, c) ==
  IF op.cmd = "pkgrm" THEN IF op.name \in Names(c) THEN <<op>> ELSE <<>>
  ELSE IF ~op.u /\ op.arc.name \in Names(c) THEN <<>>
  ELSE <<[op EXCEPT !.f = TRUE]>>

\* a protected file that the kill left half-written counts as the administrator's
Torn(s, op, c) ==
  IF op.cmd = "pkgrm" THEN {}
  ELSE {p \in RegPaths(Protected(s.rules, Inst(s, op))) :
          /\ p \in DOMAIN c.fs
          /\ p \in DOMAIN s.fs => c.fs[p] # s.fs[p]
          /\ c.fs[p] # EntAt(Apply(s, op).st.fs, op.arc, p)}
Final(s, op) == Apply(s, op).st
\* one that is new on disk is the packaged one: the rejected area holds nothing newer
Fresh(s, op, c) ==
  IF op.cmd = "pkgrm" THEN {}
  ELSE {p \in RegPaths(Protected(s.rules, Inst(s, op))) : p \notin DOMAIN s.fs /\ p \in DOMAIN c.fs}
SameEnd(s, op, c, r) ==
  LET f == Final(s, op)
      x == UNION {{p, REJ \o "/" \o p} : p \in Torn(s, op, c)}
             \cup {REJ \o "/" \o p : p \in Fresh(s, op, c)}
  IN /\ NormDb(r.db) = NormDb(f.db)
     /\ Without(View(r.fs), x) = Without(View(f.fs), x)
=============================================================================
