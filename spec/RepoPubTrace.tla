----------------------------- MODULE RepoPubTrace -----------------------------
(* Judges recorded commands of a publisher and of clients against RepoPub.    *)
(* case: [p, w, op, rc, post, out, db, low]                                   *)
(* p: the publisher's side before: [colls, arcs, pub, fil, priv, pkey];       *)
(* post: the same afterwards; w: the client's side; db: installed packages;   *)
(* low: strings in lower case                                                 *)
EXTENDS RepoPub, Json, TLCExt, IOUtils, SequencesExt
Cases == JsonDeserialize(IOEnv.CASES)
If(b, n) == IF b THEN {} ELSE {n}
Low(c, s) == IF s = "" THEN "" ELSE c.low[s]
Same(c) == c.post = c.p

Written(c, k) ==
  If(Parse(c.post.pub[k]) = Expected(c.p.arcs[k], c.p.priv), "Index") \cup
  If(Cardinality(Starts(c.post.pub[k])) = Cardinality(DOMAIN c.p.arcs[k]), "Once") \cup
  If(FilesParse(c.post.fil[k]) = FilesExpected(c.p.arcs[k]), "Lists") \cup
  If(c.post.packed[k], "Packed")
PublishBad(c) ==
  LET K == IF c.op.c = "" THEN Rng(c.p.colls) ELSE {c.op.c} \cap Rng(c.p.colls) IN
  IF K = {} THEN If(c.rc # 0, "AcceptedUnknown") \cup If(Same(c), "Meddles")
  ELSE If(c.rc = 0, "PublishFailed") \cup If(c.post.arcs = c.p.arcs, "Meddles") \cup
       If(\A k \in Rng(c.p.colls) \ K : c.post.pub[k] = c.p.pub[k] /\ c.post.fil[k] = c.p.fil[k], "Meddles") \cup
       (IF c.rc = 0 THEN UNION { Written(c, k) : k \in K } ELSE {})
PW(c) == [colls |-> c.p.colls, idx |-> c.p.pub, fil |-> c.p.fil]
WrongOf(c, k) == { n \in Offers(PW(c)) : FromColl(PW(c), n) = k /\ WrongEntry(OfferOf(PW(c), n), c.p.arcs[k], c.p.pkey[k]) }
VerifyBad(c) ==
  LET all == UNION { WrongOf(c, c.p.colls[i]) : i \in DOMAIN c.p.colls } rep == Rng(c.out.wrong) IN
  If(Same(c), "Meddles") \cup
  If((IF c.op.c = "" THEN all ELSE WrongOf(c, c.op.c)) \subseteq rep, "NotReported") \cup If(rep \subseteq all, "WronglyReported")

Text(c, lab, s) == lab \in DOMAIN c.out /\ c.out[lab] = s
Several(c, lab, S) == IF S = {} THEN lab \notin DOMAIN c.out ELSE lab \in DOMAIN c.out /\ Rng(c.out[lab]) = S
Number(s) == IF s = "" THEN "0" ELSE s
Maybe(c, lab, s) == IF s = "" THEN lab \notin DOMAIN c.out ELSE Text(c, lab, s)
InfoBad(c) ==
  If(c.rc = 0, "InfoFailed") \cup
  (IF c.op.x \notin Offers(c.w) THEN If(DOMAIN c.out = {}, "InfoUnknown")
   ELSE LET e == OfferOf(c.w, c.op.x) k == FromColl(c.w, c.op.x) o == e.one m == e.many IN
   If(Text(c, "Name", c.op.x) /\ Text(c, "Description", o["D"]) /\ Text(c, "Archive name", e.fn) /\ Maybe(c, "Group", o["g"]) /\ Text(c, "Collection", CollOf(k, e))
      /\ Text(c, "URL", o["U"]) /\ Text(c, "License", o["L"]) /\ Text(c, "Version", o["V"]) /\ Text(c, "Release", Number(o["r"])) /\ Text(c, "Build date", Number(o["B"]))
      /\ Text(c, "Hashsum", o["H"]) /\ Text(c, "Signature", o["I"]) /\ Text(c, "Maintainer(s)", o["M"]) /\ Text(c, "Packager", o["P"]) /\ Text(c, "Contributor(s)", o["C"])
      /\ Text(c, "Arch", o["a"]) /\ Text(c, "Local folder", "/depot/" \o k), "Fields") \cup
   If(Several(c, "Alias", m["A"]) /\ Several(c, "Categories", m["T"]) /\ Several(c, "Sets", m["s"]) /\ Several(c, "Dependencies", { DepName(d) : d \in m["R"] }), "Lists2") \cup
   If("Archive Size" \in DOMAIN c.out /\ c.out["Archive Size"] \in Human(c.op.size) /\ "Installed Size" \in DOMAIN c.out /\ c.out["Installed Size"] \in Human(c.op.space), "Sizes"))

Fits(c, x, e) == LET o == e.one IN \E v \in {CollOf(x, e), o["N"], o["D"], o["U"], o["P"], o["V"]} \cup e.many["s"] \cup e.many["T"] : Contains(Low(c, v), Low(c, c.op.x))
Row(c, x) == [t |-> "(" \o CollOf(x[1], x[2]) \o ") " \o NameOf(x[2]) \o " " \o x[2].one["V"] \o " " \o x[2].one["D"], inst |-> NameOf(x[2]) \in Rng(c.db)]
SearchWant(c) == { Row(c, x) : x \in { y \in All(c.w) : IF c.op.names THEN Contains(Low(c, NameOf(y[2])), Low(c, c.op.x)) ELSE y[2].one["n"] = "" /\ Fits(c, y[1], y[2]) } }

Begins(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
RECURSIVE FilesAt(_, _, _)
FilesAt(w, i, n) == IF i > Len(w.colls) THEN {} ELSE
  LET S == { f \in FileEntries(w, w.colls[i]) : Begins(f.fn, n \o ".cards-") } IN IF S # {} THEN (CHOOSE f \in S : TRUE).files ELSE FilesAt(w, i + 1, n)

Bad(c) ==
  IF c.rc = 997 THEN {"Hangs"} ELSE IF c.rc > 128 \/ c.rc < 0 THEN {"Crashes"} ELSE
  LET k == c.op.k out == IF k \in {"listb", "lists", "infos", "files", "query", "search"} THEN Rng(c.out) ELSE {} IN
  CASE k = "publish" -> PublishBad(c)
    [] k = "verify" -> VerifyBad(c)
    [] k = "keys" -> If(c.rc = 0 /\ c.out.pair /\ c.out.mode = "600", "Keys")
    [] k = "info" -> InfoBad(c)
    [] k = "listb" -> If(c.rc = 0 /\ out = ListAll(c.w) /\ Len(c.out) = Cardinality(All(c.w)), "ListAll")
    [] k = "lists" -> If(c.rc = 0 /\ out = ListSets(c.w) /\ Len(c.out) = Cardinality(out), "ListSets")
    [] k = "infos" -> If(c.rc = 0 /\ out = { "(" \o c.op.x \o ") " \o n : n \in InfoSet(c.w, c.op.x) }, "InfoSet")
    [] k = "files" -> If(c.rc = 0 /\ out = FilesAt(c.w, 1, c.op.x), "FilesOf")
    [] k = "query" -> If(c.rc = 0 /\ { <<r[1], r[2], r[3]>> : r \in out } = QueryFiles(c.w, c.op.pat), "Query")
    [] k = "search" -> If(c.rc = 0 /\ out = SearchWant(c), "Search")
    [] k = "sync" -> IF \E i \in DOMAIN c.p.colls : ~c.p.packed[c.p.colls[i]] THEN {} ELSE If(c.rc = 0, "SyncFailed") \cup If(\A i \in DOMAIN c.p.colls : c.out.idx[c.p.colls[i]] = c.p.pub[c.p.colls[i]] /\ c.out.fil[c.p.colls[i]] = c.p.fil[c.p.colls[i]], "NotEqual")
VARIABLE i
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1 /\ PrintT("C " \o ToJson([k |-> i', bad |-> SetToSeq(Bad(Cases[i']))]))
Spec == Init /\ [][Next]_i
=============================================================================
