------------------------------- MODULE RepoConf -------------------------------
(* What a configuration file means. A file is a sequence of lines (strings). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(s, i) == SubSeq(s, i, i)
Gap(c) == c = " " \/ c = "\t"
\* the first position from i on where the character is x (or a gap), 0 if none
RECURSIVE Find(_, _, _)
Find(s, x, i) == IF i > Len(s) THEN 0 ELSE IF At(s, i) = x THEN i ELSE Find(s, x, i + 1)
RECURSIVE FindGap(_, _)
FindGap(s, i) == IF i > Len(s) THEN 0 ELSE IF Gap(At(s, i)) THEN i ELSE FindGap(s, i + 1)
RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ Gap(At(s, 1)) THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # "" /\ Gap(At(s, Len(s))) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
RECURSIVE LastSlash(_, _)
LastSlash(s, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = "/" THEN i ELSE LastSlash(s, i - 1)
Bare(l) == LET h == Find(l, "#", 1) IN Strip(IF h = 0 THEN l ELSE SubSeq(l, 1, h - 1))

\* one setting: [key, val], or nothing
Setting(l) == LET b == Bare(l) g == FindGap(b, 1) IN
  IF g = 0 THEN [key |-> "", val |-> ""] ELSE [key |-> SubSeq(b, 1, g - 1), val |-> Strip(SubSeq(b, g, Len(b)))]

None == [dirs |-> <<>>, depot |-> "", url |-> "", groups |-> <<>>, logdir |-> "", keypath |-> "", version |-> ""]
Dir(v) ==
  LET bar == Find(v, "|", 1) d == IF bar = 0 THEN v ELSE Strip(SubSeq(v, 1, bar - 1)) u == IF bar = 0 THEN "" ELSE Strip(SubSeq(v, bar + 1, Len(v)))
      k == LastSlash(d, Len(d)) IN [coll |-> SubSeq(d, k + 1, Len(d)), depot |-> SubSeq(d, 1, k - 1), url |-> u]
First(a, b) == IF a = "" THEN b ELSE a
Put(c, s) ==
  CASE s.key = "dir" -> [c EXCEPT !.dirs = Append(@, Dir(s.val))]
    [] s.key = "collection" -> IF \E i \in DOMAIN c.dirs : c.dirs[i].coll = s.val THEN c ELSE [c EXCEPT !.dirs = Append(@, [coll |-> s.val, depot |-> "", url |-> ""])]
    [] s.key = "depot" -> [c EXCEPT !.depot = First(@, s.val)]
    [] s.key = "url" -> [c EXCEPT !.url = First(@, s.val)]
    [] s.key \in {"group", "locale"} -> [c EXCEPT !.groups = Append(@, s.val)]
    [] s.key = "logdir" -> [c EXCEPT !.logdir = s.val]
    [] s.key = "keypath" -> [c EXCEPT !.keypath = s.val]
    [] s.key = "version" -> [c EXCEPT !.version = First(@, s.val)]
    [] OTHER -> c
RECURSIVE Fold(_, _)
Fold(c, ls) == IF ls = <<>> THEN c ELSE Fold(Put(c, Setting(Head(ls))), Tail(ls))
\* one address and one depot for all collections without their own
Spread(c) == [c EXCEPT !.dirs = [ i \in DOMAIN @ |-> [@[i] EXCEPT !.url = First(@, c.url), !.depot = First(@, c.depot)] ]]
\* the file, and the file naming the release of the distribution
Meaning(ls, vs) == Spread(Fold(None, ls \o vs))

\* what `cards config' shows
Shown(c, arch) ==
  [ i \in DOMAIN c.dirs |-> ToString(i) \o " Directory: " \o c.dirs[i].depot \o "/" \o c.dirs[i].coll
     \o (IF c.dirs[i].url = "" THEN "" ELSE " from " \o c.dirs[i].url \o "/" \o arch \o "/" \o c.version \o "/" \o c.dirs[i].coll) ]
  \o <<"Binaries : " \o arch>> \o [ i \in DOMAIN c.groups |-> "Group    : " \o c.groups[i] ]
  \o (IF c.logdir = "" THEN <<>> ELSE <<"log directory: " \o c.logdir>>)
=============================================================================
