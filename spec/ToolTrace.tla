------------------------------ MODULE ToolTrace ------------------------------
(* Recorded runs of the commands: exit status, both outputs, and when table  *)
(* steps happened (microseconds of simulated time).                          *)
EXTENDS Tool, CaseCheck
Stores == ndJsonDeserialize(IOEnv.STORES)
RECURSIVE LoadStores(_)
LoadStores(k) == IF k > Len(Stores) THEN <<>> ELSE <<LoadAll(Stores[k].recs)>> \o LoadStores(k + 1)
Dbs == TLCEval(LoadStores(1))
Db == Dbs[Case.store]
Sto == Stores[Case.store]
Refused(o) == o.ret \in 1..98 /\ o.out = <<>>
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Blur(e) == IF e.ty \in {KRRset, KRdata} THEN [e EXCEPT !.c = <<>>] ELSE [e EXCEPT !.f = <<>>, !.l = <<>>, !.x = <<>>]
(* ---------------------------------------------------------------- lookup *)
Printed(l, b, p, x) ==
  LET e == AsEntry(x) IN
  IF l.json THEN PrintedJson(b, p, e, Sto.rp, l.rfc, l.raw)
  ELSE PrintedText(b, p, e, Sto.rp, IF e.kind = KRRset THEN <<10>> ELSE <<>>)
(* how many entries b is, being a beginning of exp (or -1); unaggregated ties in any order *)
RECURSIVE Entered(_, _, _, _, _, _)
Entered(l, b, p, exp, k, left) ==
  IF p > Len(b) THEN k - 1
  ELSE IF k > Len(exp) THEN -1
  ELSE IF l.q.agg THEN (LET e == Printed(l, b, p, exp[k]) IN IF e = 0 THEN -1 ELSE Entered(l, b, e, exp, k + 1, left))
  ELSE LET S == {j \in 1..Len(left) : Blur(left[j]) = Blur(exp[k]) /\ Printed(l, b, p, left[j]) # 0} IN
       IF S = {} THEN -1
       ELSE LET j == CHOOSE x \in S : TRUE IN Entered(l, b, Printed(l, b, p, left[j]), exp, k + 1, Without(left, j))
RECURSIVE LinesOf(_, _)
LinesOf(b, p) == LET q == NextLf(b, p) IN IF q = 0 THEN <<>> ELSE <<SubSeq(b, p, q - 1)>> \o LinesOf(b, q + 1)
RECURSIVE Squeeze(_)      \* runs of blanks as one
Squeeze(s) == IF Len(s) < 2 THEN s ELSE IF s[1] = 32 /\ s[2] = 32 THEN Squeeze(Tail(s)) ELSE <<s[1]>> \o Squeeze(Tail(s))
Dumped(n) == L(";;; Dumped ") \o DecW(OfNat(2, n)) \o L(" entries.\n")
TimedOut == L(";;; timed out\n")
EndOf(nx) == IF nx = <<>> THEN 0 ELSE nx[Len(nx)]
(* ------------------------------------------------------------- statistics *)
StageL == <<L("fileset"), L("single label"), L("rrtype"), L("bailiwick"), L("time prefilter"), L("remove strict"), L("fill merger"), L("left join"), L("time"), L("offset")>>
CatL == <<L("filtered"), L("merged"), L("seek"), L("files")>>
(* "name : number", the number or -1 *)
NumberIn(line, name) ==
  LET h == name \o L(" : ") n == SubSeq(line, Len(h) + 1, Len(line)) IN
  IF HasPrefix(line, h) /\ Digits(n) /\ Len(n) < 10 THEN NumN(n, 0) ELSE -1
RECURSIVE BlankBefore(_, _)
BlankBefore(ls, k) == IF k = 0 THEN 0 ELSE IF ls[k] = <<>> THEN k ELSE BlankBefore(ls, k - 1)
HasTimesQ(q) == q.type \in {QRRset, QName, QIp, QRaw}
(* at: the line saying how many entries there were, after the counters of a whole search *)
CountersOk(l, ls, at, set) ==
  LET q == l.q
      S == Stages(q, Db, Sto.ranges, set)
      ex == CountersExist(q, set)
      b == IF at < 3 THEN 0 ELSE BlankBefore(ls, at - 2)
      rows == [k \in 1..(at - 2 - b) |-> Squeeze(ls[b + k])]
      cells == SelectSeq([k \in 1..40 |-> <<(k + 3) \div 4, 1 + ((k - 1) % 4)>>], LAMBDA x : ex[x[1]][x[2]] = 1)
      merging == set /\ q.agg
      files == IF merging THEN S.files["main"] + (IF ex[6][4] = 1 THEN S.files["remove"] ELSE 0) + (IF ex[7][4] = 1 THEN S.files["fill"] ELSE 0) ELSE 0
      known == ex[4][1] * S.bw + ex[5][1] * S.pre + ex[6][1] * S.rem + ex[9][1] * S.time + ex[10][1] * S.off
  IN /\ at < Len(ls) /\ HasPrefix(ls[at + 1], L("elapsed"))
     /\ b > 0 /\ ls[at - 1] = <<>>
     /\ IF l.stats < 2 THEN
          /\ Len(rows) = 4
          /\ LET v == [j \in 1..4 |-> NumberIn(rows[j], CatL[j])] IN
             /\ \A j \in 1..4 : v[j] >= 0
             /\ HasTimesQ(q) =>
                  /\ v[1] >= known /\ ((ex[2][1] = 0 /\ ex[3][1] = 0) => v[1] = known)
                  /\ v[2] >= ex[8][2] * S.join + (IF merging THEN S.mainmerged + S.fillmerged ELSE 0)
             /\ (merging \/ ~set) => v[4] = files
        ELSE
          /\ Len(rows) = Len(cells)
          /\ \A k \in 1..Len(rows) :
               LET i == cells[k][1]  j == cells[k][2]
                   v == NumberIn(rows[k], StageL[i] \o <<32>> \o CatL[j])
               IN /\ v >= 0
                  /\ HasTimesQ(q) =>
                       CASE j = 1 /\ i = 4 -> v = S.bw [] j = 1 /\ i = 5 -> v = S.pre [] j = 1 /\ i = 6 -> v = S.rem
                         [] j = 1 /\ i = 9 -> v = S.time [] j = 1 /\ i = 10 -> v = S.off [] j = 2 /\ i = 8 -> v = S.join
                         [] j = 2 /\ i = 1 -> merging => v >= S.mainmerged
                         [] j = 2 /\ i = 7 -> v >= S.fillmerged
                         [] j = 4 -> merging => v = S.files[CASE i = 1 -> "main" [] i = 6 -> "remove" [] OTHER -> "fill"]
                         [] OTHER -> TRUE
LookupOk(c) ==
  LET l == Lookup(c) o == c.out IN
  IF ~l.ok THEN Refused(o)
  ELSE LET full == Answer([l.q EXCEPT !.off = Zeros(4)], Db)
           exp == Skip(full, l.q.off)
           whole == Len(exp)
           over == l.limit > 0 /\ EndOf(o.nx) >= l.limit * 1000000
           late == Cardinality({k \in 1..Len(o.nx) : k > 1 /\ o.nx[k - 1] > l.limit * 1000000 + 1000})
           n == Entered(l, o.out, 1, exp, 1, full)
           ls == LinesOf(o.err, 1)
           sq == SelectSeq(ls, LAMBDA x : HasPrefix(x, L("entries")))
           plain == l.stats = 0 /\ l.every = 0
           Says(m) == \/ o.err = Dumped(m) \/ (over /\ o.err = TimedOut \o Dumped(m))
           EndsSaying(m) == HasSuffix(o.err, Dumped(m)) /\ (HasSuffix(o.err, TimedOut \o Dumped(m)) => over)
           IsTimed(m) == HasSuffix(o.err, TimedOut \o Dumped(m))
           (* the number of entries reported, when the entries themselves are not shown *)
           claims == IF l.quiet THEN {m \in 0..whole : EndsSaying(m)} ELSE {n}
       IN /\ o.ret = 0
          /\ l.quiet => o.out = <<>>
          /\ n # -1 /\ claims # {}
          /\ LET m == CHOOSE x \in claims : \A y \in claims : y <= x IN
             /\ m < whole => over
             /\ l.json \/ EndsSaying(m)
             /\ (~l.json /\ m < whole) => IsTimed(m)
             /\ plain => (IF l.json THEN o.err = <<>> ELSE Says(m))
             /\ l.limit > 0 => late <= 2 * Len(Sto.files) + 2
             (* statistics: at the end, and from time to time when asked for *)
             /\ ~plain => /\ sq # <<>>
                          /\ Squeeze(sq[Len(sq)]) = L("entries : ") \o DecW(OfNat(2, m))
                          /\ (l.every = 0) => Len(sq) = 1
                          /\ (m = whole /\ l.limit = 0 /\ l.every = 0) =>
                               CountersOk(l, ls, CHOOSE k \in 1..Len(ls) : HasPrefix(ls[k], L("entries")), c.setf = "ok")
                          /\ (l.every > 0 /\ m = whole /\ l.limit = 0) => Len(sq) <= 2 + EndOf(o.nx) \div (l.every * 1000000)
(* ------------------------------------------------------------------ dump *)
RECURSIVE AllPrinted(_, _, _, _, _)
AllPrinted(d, b, p, es, k) ==
  IF k > Len(es) THEN p = Len(b) + 1
  ELSE LET e == IF d.json THEN PrintedJson(b, p, es[k], Sto.rp, FALSE, d.raw)
                ELSE PrintedText(b, p, es[k], Sto.rp, IF es[k].kind = KRdata THEN <<>> ELSE <<10>>)
       IN e # 0 /\ AllPrinted(d, b, e, es, k + 1)
DumpOk(c) ==
  LET d == Dump(c) o == c.out IN
  \/ d.vague
  \/ IF ~d.ok THEN Refused(o)
     ELSE LET R == SelectSeq(Sto.recs, LAMBDA r : r.key[1] = d.kind /\ Decode(r.key, r.vals[1][2]).ok)
              es == [k \in 1..Len(R) |-> LET e == Decode(R[k].key, R[k].vals[1][2]) IN
                       [kind |-> d.kind, name |-> IF d.kind \in {KRRset, KRdata, KRRsetName, KRdataName} THEN e.name ELSE <<>>,
                        rrtype |-> IF d.kind \in {KRRset, KRdata} THEN e.rrtype ELSE 0,
                        bailiwick |-> IF d.kind = KRRset THEN e.bailiwick ELSE <<>>,
                        rdatas |-> IF d.kind \in {KRRset, KRdata} THEN e.rdatas ELSE <<>>,
                        seen |-> IF d.kind \in {KRRset, KRdata, KTimeRange} THEN e.seen ELSE <<>>,
                        index |-> IF d.kind \in {KRRsetName, KRdataName} THEN e.index ELSE <<>>,
                        text |-> IF d.kind = KSource THEN e.text ELSE <<>>,
                        vkind |-> IF d.kind = KVersion THEN e.vkind ELSE 0,
                        version |-> IF d.kind = KVersion THEN e.version ELSE <<>>]] \o <<>>
          IN o.ret = 0 /\ o.err = <<>> /\ AllPrinted(d, o.out, 1, es, 1)
COk(c) == IF c.op = "lookup" THEN LookupOk(c) ELSE DumpOk(c)
CCNext == CCStep(COk(Case))
=============================================================================
