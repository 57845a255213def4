------------------------------- MODULE RepoPub -------------------------------
(* Publishing collections of archives, verifying them, and what a client     *)
(* reads out of the published index.                                         *)
(*                                                                           *)
(* A text is a sequence of lines [k, v]: the letter a line begins with and   *)
(* the rest ("" and "" for a blank line).                                    *)
(* archive: [id, size, lines, files]: contents, size, metadata and list of   *)
(* files (texts).                                                            *)
(* An index is the sequence of the archives' entries: "@" file name, the     *)
(* metadata, H hash (here: the contents' id), I signature (here: key and id), *)
(* i size, blank.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == { s[i] : i \in DOMAIN s }
L(k, v) == [k |-> k, v |-> v]
BLANK == L("", "")
ONE == {"N", "V", "r", "S", "a", "D", "U", "C", "M", "P", "L", "B", "c", "g", "n", "H", "I", "i"}
MANY == {"A", "s", "T", "o", "l", "R"}
Values(lines, k) == { lines[i].v : i \in { j \in DOMAIN lines : lines[j].k = k } }
LastOf(lines, k) == LET S == { j \in DOMAIN lines : lines[j].k = k } IN
  IF S = {} THEN "" ELSE lines[CHOOSE j \in S : \A h \in S : h <= j].v

Signature(key, id) == key \o ":" \o id
Sealed(a, key) == a.lines \o << L("H", a.id), L("I", Signature(key, a.id)), L("i", ToString(a.size)) >>
Block(fn, a, key) == <<L("@", fn)>> \o Sealed(a, key) \o <<BLANK>>
RECURSIVE Blocks(_, _, _)
Blocks(fns, arcs, key) == IF fns = <<>> THEN <<>> ELSE Block(Head(fns), arcs[Head(fns)], key) \o Blocks(Tail(fns), arcs, key)
\* any order of the archives will do
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION { { <<x>> \o o : o \in Orders(S \ {x}) } : x \in S }
Published(arcs, key) == { Blocks(o, arcs, key) : o \in Orders(DOMAIN arcs) }

-----------------------------------------------------------------------------
(* What an index says *)
Entry(fn, lines) == [fn |-> fn, one |-> [ k \in ONE |-> LastOf(lines, k) ], many |-> [ k \in MANY |-> Values(lines, k) ]]
Starts(t) == { i \in DOMAIN t : t[i].k = "@" }
\* an entry goes up to the next blank line; what is not finished by one does not count
EndOf(t, i) == LET S == { j \in (i + 1)..Len(t) : t[j] = BLANK } IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A h \in S : j <= h
Parse(t) == { Entry(t[i].v, SubSeq(t, i + 1, EndOf(t, i) - 1)) : i \in { j \in Starts(t) : EndOf(t, j) # 0 } }
Expected(arcs, key) == { Entry(fn, Sealed(arcs[fn], key)) : fn \in DOMAIN arcs }
\* the lists of files
FilesParse(t) == { [fn |-> t[i].v, files |-> { t[j].v : j \in (i + 1)..(EndOf(t, i) - 1) }] : i \in { j \in Starts(t) : EndOf(t, j) # 0 } }
FilesExpected(arcs) == { [fn |-> fn, files |-> Rng(arcs[fn].files)] : fn \in DOMAIN arcs }

\* an entry's archive, as it is now, does not carry the signature the entry announces
WrongEntry(e, arcs, pkey) == e.fn \notin DOMAIN arcs \/ e.one["I"] # Signature(pkey, arcs[e.fn].id)

-----------------------------------------------------------------------------
(* A client: w = [colls (sequence of names), idx: name -> text, fil: name -> text].  *)
(* Collections without a text are not there.                                 *)
Entries(w, c) == IF c \in DOMAIN w.idx THEN Parse(w.idx[c]) ELSE {}
NameOf(e) == e.one["N"]
Names(w, c) == { NameOf(e) : e \in Entries(w, c) }
CollOf(c, e) == IF e.one["c"] # "" THEN e.one["c"] ELSE c
Offers(w) == UNION { Names(w, w.colls[i]) : i \in DOMAIN w.colls }
\* the collection listed first
FromColl(w, n) == w.colls[CHOOSE i \in DOMAIN w.colls : n \in Names(w, w.colls[i]) /\ \A j \in 1..(i - 1) : n \notin Names(w, w.colls[j])]
OfferOf(w, n) == CHOOSE e \in Entries(w, FromColl(w, n)) : NameOf(e) = n
All(w) == UNION { { <<w.colls[i], e>> : e \in Entries(w, w.colls[i]) } : i \in DOMAIN w.colls }

\* list -b: every entry; list -S: the sets
ListAll(w) == { "(" \o CollOf(x[1], x[2]) \o ") " \o NameOf(x[2]) \o " " \o x[2].one["V"] \o "-" \o x[2].one["r"] : x \in All(w) }
ListSets(w) == UNION { x[2].many["s"] : x \in All(w) }
\* info -S: the members of a set, else of a collection
SetMembers(w, s) == { n \in Offers(w) : s \in OfferOf(w, n).many["s"] /\ OfferOf(w, n).one["g"] = "" }
CollMembers(w, c) == { n \in Offers(w) : LET e == OfferOf(w, n) IN CollOf(FromColl(w, n), e) = c /\ e.one["g"] = "" /\ e.one["n"] = "" }
InfoSet(w, x) == IF SetMembers(w, x) # {} THEN SetMembers(w, x) ELSE CollMembers(w, x)

\* numbers as people read them: rounding a tie either way
Digits2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Pad5(s) == IF Len(s) < 5 THEN " " \o s ELSE s
Fixed(h) == Pad5(ToString(h \div 100) \o "." \o Digits2(h % 100))
Round(r, unit) == LET q == (r * 100) \div unit m == (r * 100) % unit IN
  IF 2 * m < unit THEN {q} ELSE IF 2 * m > unit THEN {q + 1} ELSE {q, q + 1}
Scaled(v, unit, letter) == { Fixed((v \div unit) * 100 + q) \o " " \o letter : q \in Round(v % unit, unit) }
Human(v) == IF v < 1024 THEN {ToString(v)}
            ELSE IF v < 1048576 THEN Scaled(v, 1024, "K")
            ELSE IF v < 1073741824 THEN Scaled(v, 1048576, "M")
            ELSE Scaled(v \div 1024, 1048576, "G")
DepName(v) == SubSeq(v, 1, Len(v) - 10)

-----------------------------------------------------------------------------
(* Text search *)
Contains(s, x) == \E i \in 0..(Len(s) - Len(x)) : SubSeq(s, i + 1, i + Len(x)) = x
\* pattern: [at (the path begins with it), to (the path ends with it), s]
Hits(pat, path) ==
  LET n == Len(pat.s) m == Len(path) IN
  IF n > m THEN FALSE
  ELSE IF pat.at /\ pat.to THEN path = pat.s
  ELSE IF pat.at THEN SubSeq(path, 1, n) = pat.s
  ELSE IF pat.to THEN SubSeq(path, m - n + 1, m) = pat.s
  ELSE Contains(path, pat.s)
FileEntries(w, c) == IF c \in DOMAIN w.fil THEN FilesParse(w.fil[c]) ELSE {}
QueryFiles(w, pat) == UNION { { <<w.colls[i], f.fn, "/" \o p>> : p \in { q \in f.files : Hits(pat, "/" \o q) } } : <<i, f>> \in UNION { {j} \X FileEntries(w, w.colls[j]) : j \in DOMAIN w.colls } }
=============================================================================
