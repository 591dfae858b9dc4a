------------------------------- MODULE Query -------------------------------
(* Looking records up in a store made of one or more files.                  *)
(*                                                                           *)
(* The query object is a state machine: every setter either accepts its      *)
(* argument and changes one restriction, or refuses it.  Running a query     *)
(* yields the records that satisfy all restrictions in force, as seen over   *)
(* the whole store (Answer).  Stages describes the same result as computed   *)
(* by the chain of stages whose counters are visible to users; that both     *)
(* agree is model-checked in FenceMC.                                        *)
EXTENDS Merge

QRRset == 0  QName == 1  QIp == 2  QRaw == 3  QSource == 253  QTime == 254  QVersion == 255
NameSearch == {2, 5, 6, 12, 15, 17, 30, 33, 39, 47, 64, 65}     \* types whose searchable data begins with a name
OneName == {2, 5, 12, 15, 33, 39}                               \* ... and is nothing else

(* ------------------------------------------------------ the query object *)
QInit(t) == [type |-> t, name |-> <<>>, case |-> FALSE, rr |-> <<>>, bw |-> <<>>, ip |-> <<>>, raw |-> <<>>, vt |-> <<>>,
             agg |-> TRUE, off |-> Zeros(4), fb |-> <<>>, fa |-> <<>>, lb |-> <<>>, la |-> <<>>, to |-> <<>>, dl |-> <<>>,
             lost |-> FALSE, lostbw |-> FALSE]
LowerName(ls) == [k \in 1..Len(ls) |-> LowerAll(ls[k])]
Keep(n, i) == LET x == 8 * i - n IN IF n >= 8 * i THEN 8 ELSE IF x >= 8 THEN 0 ELSE 8 - x      \* leading bits of byte i kept by /n
LowBound(a, n) == [i \in 1..Len(a) |-> a[i] - (a[i] % Pow2[8 - Keep(n, i)])]
HighBound(a, n) == [i \in 1..Len(a) |-> (a[i] - (a[i] % Pow2[8 - Keep(n, i)])) + Pow2[8 - Keep(n, i)] - 1]
AddrType(a) == IF Len(a) = 4 THEN 1 ELSE 28
Refuse(q) == [ok |-> FALSE, q |-> q]
Accept(q) == [ok |-> TRUE, q |-> q]
(* m: the meaning of the argument's text: [k, ...], "null" for no argument, "bad" for text without one *)
SetData(q, m) ==
  CASE q.type \in {QRRset, QName} ->
         (CASE m.k = "null" -> Accept([q EXCEPT !.name = <<>>, !.lost = TRUE])
            [] m.k = "name" -> Accept([q EXCEPT !.name = <<IF q.case THEN Labels(m.v) ELSE LowerName(Labels(m.v))>>, !.lost = FALSE])
            [] OTHER -> Refuse([q EXCEPT !.lost = TRUE]))
    [] q.type = QIp ->
         (CASE m.k = "null" -> Accept([q EXCEPT !.ip = <<>>, !.lost = FALSE])
            [] m.k = "addr" -> Accept([q EXCEPT !.ip = <<m.a, m.a>>, !.rr = <<AddrType(m.a)>>, !.lost = FALSE])
            [] m.k = "prefix" -> IF m.n < 0 \/ m.n > 8 * Len(m.a) THEN Refuse([q EXCEPT !.lost = TRUE])
                                 ELSE Accept([q EXCEPT !.ip = <<LowBound(m.a, m.n), HighBound(m.a, m.n)>>, !.rr = <<AddrType(m.a)>>, !.lost = FALSE])
            [] m.k = "range" -> IF Len(m.a) # Len(m.b) THEN Refuse([q EXCEPT !.lost = TRUE])
                                ELSE Accept([q EXCEPT !.ip = <<m.a, m.b>>, !.rr = <<AddrType(m.a)>>, !.lost = FALSE])
            [] OTHER -> Refuse([q EXCEPT !.lost = TRUE]))
    [] q.type = QRaw ->
         (CASE m.k = "null" -> Accept([q EXCEPT !.raw = <<>>, !.lost = TRUE])
            [] m.k = "raw" -> Accept([q EXCEPT !.raw = m.v, !.lost = FALSE])
            [] OTHER -> Refuse([q EXCEPT !.lost = TRUE]))
    [] q.type = QVersion ->
         (CASE m.k = "null" -> Accept([q EXCEPT !.vt = <<>>])
            [] m.k = "vtype" /\ m.v \in {KRRset, KRRsetName, KRdata, KRdataName} -> Accept([q EXCEPT !.vt = <<m.v>>])
            [] OTHER -> Refuse(q))
    [] OTHER -> Refuse(q)
SetRR(q, m) ==      \* "any": ANY, TYPE255, ANY-DNSSEC
  CASE m.k \in {"null", "any"} -> Accept([q EXCEPT !.rr = <<>>])
    [] m.k = "type" -> Accept([q EXCEPT !.rr = <<m.v>>])
    [] OTHER -> Refuse(q)
SetBw(q, m) ==
  IF q.type # QRRset THEN Refuse(q)
  ELSE CASE m.k = "null" -> Accept([q EXCEPT !.bw = <<>>, !.lostbw = FALSE])
         [] m.k = "name" -> Accept([q EXCEPT !.bw = <<LowerName(Labels(m.v))>>, !.lostbw = FALSE])
         [] OTHER -> Refuse([q EXCEPT !.lostbw = TRUE])
SetFence(q, m) ==   \* which: 0 first-before, 1 first-after, 2 last-before, 3 last-after; v: <<>> or <<time>>
  IF m.len # 8 \/ m.which \notin 0..3 THEN Refuse(q)
  ELSE Accept(CASE m.which = 0 -> [q EXCEPT !.fb = m.v] [] m.which = 1 -> [q EXCEPT !.fa = m.v]
                [] m.which = 2 -> [q EXCEPT !.lb = m.v] [] OTHER -> [q EXCEPT !.la = m.v])
Set(q, ev) ==
  CASE ev.op = "data" -> SetData(q, ev.m)
    [] ev.op = "rr" -> SetRR(q, ev.m)
    [] ev.op = "bw" -> SetBw(q, ev.m)
    [] ev.op = "fp" -> SetFence(q, ev.m)
    [] ev.op = "case" -> Accept([q EXCEPT !.case = (ev.m.v = 1)])
    [] ev.op = "agg" -> Accept([q EXCEPT !.agg = (ev.m.v = 1)])
    [] ev.op = "off" -> Accept([q EXCEPT !.off = ev.m.v])
    [] ev.op = "to" -> Accept([q EXCEPT !.to = ev.m.v])
    [] ev.op = "dl" -> Accept([q EXCEPT !.dl = ev.m.v])

(* -------------------------------------------------------------- the store *)
(* r: [key, vals: <<<<file, value>>, ...>>], keys distinct and ascending.     *)
RECURSIVE FoldVals(_, _)
FoldVals(key, vs) == IF Len(vs) = 1 THEN vs[1] ELSE MergeTwo(key, Head(vs), FoldVals(key, Tail(vs)))
Target(d) == LET n == NameLen(d, 0) IN IF n = 0 THEN <<>> ELSE <<Labels(Take(d, n))>>
LoadRec(r) ==
  LET vs == [k \in 1..Len(r.vals) |-> r.vals[k][2]]
      e == Decode(r.key, vs[1])
      k == r.key[1]
  IN IF r.key = <<>> \/ ~e.ok THEN [key |-> r.key, ok |-> FALSE]
     ELSE IF k \in {KRRset, KRdata} THEN
       [key |-> r.key, ok |-> TRUE, kind |-> k, name |-> e.name, lab |-> Labels(e.name), rrtype |-> e.rrtype, rds |-> e.rdatas,
        bw |-> IF k = KRRset THEN e.bailiwick ELSE <<>>, data |-> IF k = KRdata THEN e.data ELSE <<>>,
        tgt |-> IF k = KRdata /\ e.rrtype \in NameSearch THEN Target(e.data) ELSE <<>>,
        per |-> [j \in 1..Len(vs) |-> [f |-> r.vals[j][1], t |-> Triplet(vs[j])]] \o <<>>, x |-> <<>>]
     ELSE
       [key |-> r.key, ok |-> TRUE, kind |-> k, vals |-> vs, files |-> [j \in 1..Len(vs) |-> r.vals[j][1]],
        rrtype |-> 65536, rds |-> <<>>, bw |-> <<>>,
        name |-> IF k \in {KRRsetName, KRdataName} THEN e.name ELSE <<>>]
RECURSIVE LoadAll(_)
LoadAll(rs) == IF rs = <<>> THEN <<>> ELSE <<LoadRec(Head(rs))>> \o LoadAll(Tail(rs))
KeysAscend(rs) == \A k \in 1..(Len(rs) - 1) : LexLt(rs[k].key, rs[k + 1].key)
HasTimes(rec) == rec.ok /\ rec.kind \in {KRRset, KRdata}

(* what is seen of a record *)
ObsTimes(rec, t) == LET s == Seen(t) IN
  [ty |-> rec.kind, n |-> rec.name, t |-> rec.rrtype, b |-> rec.bw, r |-> rec.rds, f |-> s.first, l |-> s.last, c |-> s.count, x |-> <<>>]
ObsOther(rec, val) ==
  LET e == Decode(rec.key, val) IN
  [ty |-> rec.kind, n |-> rec.name, t |-> 65536, b |-> <<>>, r |-> <<>>,
   f |-> IF rec.kind = KTimeRange THEN e.seen.first ELSE <<>>, l |-> IF rec.kind = KTimeRange THEN e.seen.last ELSE <<>>, c |-> <<>>,
   x |-> IF rec.kind = KVersion THEN <<e.vkind, e.version>> ELSE IF rec.kind = KSource THEN <<CStr(e.text)>> ELSE <<>>]
MergedT(per) == LET n == Len(per) IN
  [ok |-> TRUE, first |-> MinOf([k \in 1..n |-> per[k].t.first]), last |-> MaxOf([k \in 1..n |-> per[k].t.last]),
   count |-> SumOf([k \in 1..n |-> per[k].t.count])]
(* the observations of a record a query works on: all merged, or one per file by time *)
TLt(a, b) == WLt(a.first, b.first) \/ (a.first = b.first /\ WLt(a.last, b.last))
RECURSIVE Insert(_, _), SortT(_)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF TLt(x, Head(s)) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
SortT(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), SortT(Tail(s)))
Units(agg, per) == IF per = <<>> THEN <<>> ELSE IF agg THEN <<MergedT(per)>> ELSE SortT([k \in 1..Len(per) |-> per[k].t])

(* ------------------------------------------------------ the restrictions *)
Star == <<42>>  Plus == <<43>>
Front(s) == SubSeq(s, 1, Len(s) - 1)
IsWild(l) == l = Star \/ l = Plus
LeftWild(ls) == Len(ls) > 0 /\ IsWild(Head(ls))
RightWild(ls) == Len(ls) > 0 /\ IsWild(ls[Len(ls)])
BeginsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
(* ls: labels of a stored name, pat: labels of the searched name *)
UnderSuffix(ls, pat) == EndsWith(ls, Tail(pat)) /\ (Head(pat) = Star \/ Len(ls) = Len(pat))
UnderPrefix(ls, pat) == BeginsWith(ls, Front(pat)) /\ (pat[Len(pat)] = Star \/ Len(ls) = Len(pat))
OwnerMatch(ls, pat) == IF LeftWild(pat) THEN UnderSuffix(ls, pat)
                       ELSE IF RightWild(pat) THEN UnderPrefix(ls, pat) ELSE ls = pat
TargetMatch(q, rec) ==
  LET pat == q.name[1] IN
  IF RightWild(pat) THEN rec.tgt # <<>> /\ UnderPrefix(rec.tgt[1], pat)
  ELSE IF LeftWild(pat) THEN rec.tgt # <<>> /\ UnderSuffix(rec.tgt[1], pat)
  ELSE IF q.rr # <<>> /\ q.rr[1] \in OneName THEN rec.data = Wire(pat)
  ELSE HasPrefix(rec.data, Wire(pat))
TypeMatch(q, rec) == q.rr = <<>> \/ q.rr[1] = rec.rrtype
Kind(q) == CASE q.type = QRRset -> KRRset [] q.type \in {QName, QIp, QRaw} -> KRdata
             [] q.type = QTime -> KTimeRange [] q.type = QVersion -> KVersion [] OTHER -> KSource
(* apart from bailiwick and times *)
Match0(q, rec) ==
  /\ rec.ok /\ rec.kind = Kind(q)
  /\ CASE q.type = QRRset -> q.name # <<>> /\ TypeMatch(q, rec) /\ OwnerMatch(rec.lab, q.name[1])
       [] q.type = QName -> TypeMatch(q, rec) /\ rec.rrtype \in NameSearch /\ TargetMatch(q, rec)
       [] q.type = QIp -> /\ q.ip # <<>> /\ TypeMatch(q, rec) /\ rec.rrtype = AddrType(q.ip[1])
                          /\ Len(rec.data) = Len(q.ip[1]) /\ LexLe(q.ip[1], rec.data) /\ LexLe(rec.data, q.ip[2])
       [] q.type = QRaw -> TypeMatch(q, rec) /\ HasPrefix(Tail(rec.key), q.raw)
       [] q.type = QVersion -> q.vt = <<>> \/ rec.key = <<KVersion, q.vt[1]>>
       [] OTHER -> TRUE
BwMatch(q, rec) == q.type # QRRset \/ q.bw = <<>> \/ Labels(rec.bw) = q.bw[1]
FenceOk(q, t) == /\ q.fb # <<>> => WLe(t.first, q.fb[1])
                 /\ q.fa # <<>> => WLe(q.fa[1], t.first)
                 /\ q.lb # <<>> => WLe(t.last, q.lb[1])
                 /\ q.la # <<>> => WLe(q.la[1], t.last)
Fenced(q) == q.fb # <<>> \/ q.fa # <<>> \/ q.lb # <<>> \/ q.la # <<>>

(* ------------------------------------------------------------- the answer *)
(* the name a record is found through when a lookup goes by way of an index  *)
ByOwner(q) == q.type = QRRset /\ q.name # <<>> /\ ~LeftWild(q.name[1]) /\ RightWild(q.name[1])
ByTarget(q) == q.type = QName /\ ~RightWild(q.name[1]) /\ LeftWild(q.name[1])
Via(q, rec) == IF ByOwner(q) THEN rec.name ELSE IF ByTarget(q) THEN Wire(Rev(rec.tgt[1])) ELSE <<>>
RECURSIVE SortLex(_)
SortLex(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : LexLe(x, y) IN <<m>> \o SortLex(S \ {m})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Entries(q, rec) ==
  IF HasTimes(rec) THEN LET u == SelectSeq(Units(q.agg, rec.per), LAMBDA t : FenceOk(q, t)) IN [k \in 1..Len(u) |-> ObsTimes(rec, u[k])] \o <<>>
  ELSE IF Fenced(q) THEN <<>>        \* no times to satisfy a bound
  ELSE IF q.agg THEN <<ObsOther(rec, FoldVals(rec.key, rec.vals))>> ELSE [k \in 1..Len(rec.vals) |-> ObsOther(rec, rec.vals[k])] \o <<>>
Skip(s, off) == IF ~FitsNat(off) THEN <<>> ELSE Drop(s, ToNat(off))
Answer(q, db) ==
  LET M == SelectSeq(db, LAMBDA rec : Match0(q, rec) /\ BwMatch(q, rec))
      vias == SortLex({Via(q, M[k]) : k \in 1..Len(M)})
      ord == Cat([v \in 1..Len(vias) |-> SelectSeq(M, LAMBDA rec : Via(q, rec) = vias[v])])
  IN Skip(Cat([k \in 1..Len(ord) |-> Entries(q, ord[k])]), q.off)

(* ------------------------------------------------------------- the stages *)
(* A set of files is divided by what the files' time ranges say:             *)
(*   remove  nothing in the file can ever be part of a result                *)
(*   fill    the file alone yields no result but may widen one               *)
(* rng: <<>> or <<[first, last]>>                                            *)
FileClass(q, rng) ==
  IF rng = <<>> THEN "main"
  ELSE LET r == rng[1] IN
       IF q.fa # <<>> /\ WLt(r.last, q.fa[1]) THEN "remove"
       ELSE IF q.la # <<>> /\ WLt(r.last, q.la[1]) THEN "fill"
       ELSE IF q.lb # <<>> /\ WLt(q.lb[1], r.first) THEN "remove"
       ELSE IF q.fb # <<>> /\ q.la = <<>> /\ WLt(q.fb[1], r.first) THEN "fill"
       ELSE "main"
Prefilter(q, t) ==
  /\ q.fa # <<>> => WLe(q.fa[1], t.first)
  /\ q.lb # <<>> => WLe(t.last, q.lb[1])
  /\ q.la # <<>> => WLe(q.la[1], t.last)
  /\ q.fb # <<>> => (WLe(t.first, q.fb[1]) \/ q.la # <<>>)
InClass(per, cls, c) == SelectSeq(per, LAMBDA p : cls[p.f] = c)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Count(s, P(_)) == Len(SelectSeq(s, P))
(* the observations reaching each stage; items are [rec, t, rem, fill]       *)
Stages(q, db, ranges, fileset) ==
  LET cls == [f \in DOMAIN ranges |-> IF fileset /\ Fenced(q) THEN FileClass(q, ranges[f]) ELSE "main"]
      named == SelectSeq(db, LAMBDA rec : Match0(q, rec) /\ HasTimes(rec))
      items(rec) == LET u == Units(q.agg, InClass(rec.per, cls, "main")) IN
                    [k \in 1..Len(u) |-> [rec |-> rec, t |-> u[k], rem |-> q.agg /\ InClass(rec.per, cls, "remove") # <<>>,
                                          fill |-> IF q.agg THEN InClass(rec.per, cls, "fill") ELSE <<>>]] \o <<>>
      s0 == Cat([k \in 1..Len(named) |-> items(named[k])])
      s1 == SelectSeq(s0, LAMBDA i : BwMatch(q, i.rec))
      s2 == IF Fenced(q) THEN SelectSeq(s1, LAMBDA i : Prefilter(q, i.t)) ELSE s1
      s3 == SelectSeq(s2, LAMBDA i : ~i.rem)
      fill(i) == IF i.fill = <<>> THEN i ELSE [i EXCEPT !.t = MergedT(<<[f |-> 0, t |-> i.t]>> \o i.fill)]
      s4 == [k \in 1..Len(s3) |-> fill(s3[k])] \o <<>>
      s5 == SelectSeq(s4, LAMBDA i : FenceOk(q, i.t))
      s6 == Skip(s5, q.off)
  IN [bw |-> Len(s0) - Len(s1), pre |-> Len(s1) - Len(s2), rem |-> Len(s2) - Len(s3), join |-> Len(SelectSeq(s3, LAMBDA i : i.fill # <<>>)),
      \* merges without which what reached these stages cannot have been known
      mainmerged |-> Sum([k \in 1..Len(named) |-> LET n == IF BwMatch(q, named[k]) THEN Len(InClass(named[k].per, cls, "main")) ELSE 0 IN IF n > 1 THEN n - 1 ELSE 0] \o <<>>),
      fillmerged |-> Sum([k \in 1..Len(s3) |-> IF Len(s3[k].fill) > 1 THEN Len(s3[k].fill) - 1 ELSE 0] \o <<>>),
      time |-> Len(s4) - Len(s5), off |-> Len(s5) - Len(s6), out |-> s6,
      files |-> [c \in {"main", "fill", "remove"} |-> Cardinality({f \in DOMAIN cls : cls[f] = c})]]

(* which counters exist (stage x {filtered, merged, seek, files}) *)
WildPlus(q) == q.type \in {QRRset, QName} /\ q.name # <<>> /\
  (IF q.type = QRRset THEN (IF LeftWild(q.name[1]) THEN Head(q.name[1]) = Plus ELSE RightWild(q.name[1]) /\ q.name[1][Len(q.name[1])] = Plus)
   ELSE (IF RightWild(q.name[1]) THEN q.name[1][Len(q.name[1])] = Plus ELSE LeftWild(q.name[1]) /\ Head(q.name[1]) = Plus))
AnyWild(q) == LeftWild(q.name[1]) \/ RightWild(q.name[1])
TypeStage(q) == CASE q.type = QRRset -> q.rr # <<>> /\ AnyWild(q) [] q.type \in {QName, QIp} -> TRUE [] q.type = QRaw -> q.rr # <<>> [] OTHER -> FALSE
BwStage(q) == q.type = QRRset /\ q.bw # <<>> /\ (q.rr = <<>> \/ AnyWild(q))
B(b) == IF b THEN 1 ELSE 0
CountersExist(q, fileset) ==
  LET rem == fileset /\ q.agg /\ (q.fa # <<>> \/ q.lb # <<>>)
      fil == fileset /\ q.agg /\ Fenced(q)
  IN << <<0, 1, 0, 1>>,
        <<B(WildPlus(q)), 0, B(WildPlus(q)), 0>>,
        <<B(TypeStage(q)), 0, B(TypeStage(q)), 0>>,
        <<B(BwStage(q)), 0, 0, 0>>,
        <<B(Fenced(q)), 0, 0, 0>>,
        <<B(rem), 0, B(rem), B(rem)>>,
        <<0, B(fil), 0, B(fil)>>,
        <<0, B(fil), B(fil), 0>>,
        <<B(Fenced(q)), 0, 0, 0>>,
        <<B(~WIsZero(q.off)), 0, 0, 0>> >>

(* ------------------------------------------------- testing one entry (C17) *)
FilterPass(q, e) ==      \* e: Decode'd
  LET hasrr == e.kind \in {KRRset, KRdata} hast == hasrr \/ e.kind = KTimeRange IN
  /\ q.rr # <<>> => (hasrr /\ e.rrtype = q.rr[1])
  /\ (q.rr = <<>> /\ q.type = QName) => (hasrr /\ e.rrtype \in NameSearch)
  /\ Fenced(q) => (hast /\ FenceOk(q, e.seen))
  /\ (q.type = QRRset /\ q.bw # <<>>) => (e.kind = KRRset /\ Labels(e.bailiwick) = q.bw[1])
=============================================================================
