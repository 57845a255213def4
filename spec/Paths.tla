------------------------------- MODULE Paths -------------------------------
(* Path names are strings relative to the target root, without leading or    *)
(* trailing "/".  An *entry* is how a package manifest names a path: a       *)
(* directory entry carries a trailing "/".                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt



Ch(s, i)      == SubSeq(s, i, i)
IsDirEntry(e) == Len(e) > 0 /\ Ch(e, Len(e)) = "/"
PathOf(e)     == IF IsDirEntry(e) THEN SubSeq(e, 1, Len(e) - 1) ELSE e
Ancestors(p)  == {SubSeq(p, 1, i - 1) : i \in {k \in 2..Len(p) : Ch(p, k) = "/"}}
Under(p, d)   == Len(p) > Len(d) + 1 /\ SubSeq(p, 1, Len(d) + 1) = d \o "/"

(* Patterns: the classes of regular expression the drivers write into the    *)
(* rules file.  k = "all" | "prefix" | "suffix" | "exact" | "sub".           *)
Matches(pat, s) ==
  CASE pat.k = "all"    -> TRUE
    [] pat.k = "prefix" -> Len(s) >= Len(pat.s) /\ SubSeq(s, 1, Len(pat.s)) = pat.s
    [] pat.k = "suffix" -> Len(s) >= Len(pat.s)
                             /\ SubSeq(s, Len(s) - Len(pat.s) + 1, Len(s)) = pat.s
    [] pat.k = "exact"  -> s = pat.s
    [] pat.k = "sub"    -> \E i \in 1..(Len(s) - Len(pat.s) + 1) :
                             SubSeq(s, i, i + Len(pat.s) - 1) = pat.s
    [] OTHER            -> FALSE

(* ---- a file system is a function path -> node, node = [t, c, m, tm] ---- *)
(* t: "d" directory, "f" regular file, "l" symbolic link; c: content or     *)
(* link target; m: permission bits; tm: modification time (files only).     *)
DirNode == [t |-> "d", c |-> "", m |-> "755", tm |-> ""]

Without(f, S)  == [x \in DOMAIN f \ S |-> f[x]]

Put(fs, p, node) ==
  LET mk == Ancestors(p) \ DOMAIN fs
  IN  (p :> node) @@ ([a \in mk |-> DirNode] @@ fs)

HasChild(fs, d) == \E q \in DOMAIN fs : Under(q, d)

(* Delete the paths named by a set of entries, children before parents;     *)
(* a directory goes only if nothing is left beneath it.                      *)
DeleteEntries(fs, E) ==
  LET fs1 == Without(fs, {PathOf(e) : e \in {x \in E : ~IsDirEntry(x)}})
      ds  == {PathOf(e) : e \in {x \in E : IsDirEntry(x)}}
      gone == {d \in ds \cap DOMAIN fs1 :
                 /\ fs1[d].t = "d"
                 /\ \A q \in DOMAIN fs1 : Under(q, d) => q \in ds /\ fs1[q].t = "d"}
      \* an entry that says "directory" but names something else on disk
      odd  == {d \in ds \cap DOMAIN fs1 : fs1[d].t # "d"}
  IN  Without(fs1, gone \cup odd)

(* Remove p, then every parent that became empty, stopping below base.       *)
RECURSIVE RemoveUp(_, _, _)
RemoveUp(fs, p, base) ==
  IF p = base \/ p \notin DOMAIN fs \/ HasChild(fs, p) THEN fs
  ELSE LET anc == Ancestors(p)
           fs1 == Without(fs, {p})
       IN  IF anc = {} THEN fs1
           ELSE LET par == CHOOSE a \in anc : \A b \in anc : Len(b) <= Len(a)
                IN RemoveUp(fs1, par, base)
=============================================================================
