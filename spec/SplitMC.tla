------------------------------- MODULE SplitMC -------------------------------
(* Laws of answers.  A fixed body of observations is dealt out to files in   *)
(* every possible way; then every query of a small family is asked.          *)
EXTENDS Query, TLC
CONSTANT NFiles
VARIABLES deal, q, db
vars == <<deal, q, db>>
W(n) == OfNat(4, n)
A == <<1, 97, 0>>  BA == <<1, 98, 1, 97, 0>>  UA == <<1, 65, 0>>
RR(n, t, bw, r) == EncKey([kind |-> KRRset, name |-> n, bailiwick |-> bw, rrtype |-> t, rdatas |-> <<r>>])
RD(n, t, r) == EncKey([kind |-> KRdata, name |-> n, rrtype |-> t, rdatas |-> <<r>>, slice |-> 0])
Obs4 == << <<RR(A, 1, A, <<1, 2, 3, 4>>), 1, 5, 1>>, <<RR(A, 1, A, <<1, 2, 3, 4>>), 3, 9, 2>>, <<RR(UA, 2, <<0>>, BA), 4, 4, 1>>,
           <<RD(A, 1, <<1, 2, 3, 4>>), 2, 8, 1>>, <<RD(BA, 2, A), 5, 6, 7>>, <<RD(A, 1, <<1, 2, 3, 4>>), 6, 7, 4>> >>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : LexLe(x, y) IN <<m>> \o Sorted(S \ {m})
Keys == Sorted({Obs4[k][1] : k \in 1..Len(Obs4)})
Tr(o) == PackTriplet(W(o[2]), W(o[3]), W(o[4]))
InFile(key, f, d) == SelectSeq(Obs4, LAMBDA o : o[1] = key /\ \E k \in 1..Len(Obs4) : Obs4[k] = o /\ d[k] = f)
FileVal(key, f, d) == LET s == InFile(key, f, d) IN FoldVals(key, [k \in 1..Len(s) |-> Tr(s[k])])
Files(key, d) == SelectSeq([f \in 1..NFiles |-> f], LAMBDA f : InFile(key, f, d) # <<>>)
Db(d) == [k \in 1..Len(Keys) |-> LoadRec([key |-> Keys[k], vals |-> [j \in 1..Len(Files(Keys[k], d)) |-> <<Files(Keys[k], d)[j], FileVal(Keys[k], Files(Keys[k], d)[j], d)>>]])] \o <<>>
One == [k \in 1..Len(Obs4) |-> 1]
Fences == {<<>>} \cup {<<W(n)>> : n \in {3, 6}}
Pats == { <<<<97>>>>, <<<<65>>>>, <<Star>>, <<Star, <<97>>>>, <<Plus, <<97>>>>, <<<<98>>, Star>>, <<<<97>>, Plus>> }
Base == {[QInit(QRRset) EXCEPT !.name = <<p>>] : p \in Pats} \cup {[QInit(QName) EXCEPT !.name = <<p>>] : p \in Pats}
        \cup {[QInit(QRaw) EXCEPT !.raw = r] : r \in {<<1>>, <<1, 97>>}}
        \cup {SetData(QInit(QIp), [k |-> "prefix", a |-> <<1, 2, 3, 9>>, n |-> n]).q : n \in {0, 24, 30, 32}}
Qs == {[[[b EXCEPT !.fb = x, !.la = y] EXCEPT !.rr = z] EXCEPT !.off = o] : b \in Base, x \in Fences, y \in Fences, z \in {<<>>, <<1>>}, o \in {Zeros(4), W(1)}}
Init == deal \in [1..Len(Obs4) -> 1..NFiles] /\ q = <<>> /\ db = <<>>
Load == db = <<>> /\ db' = Db(deal) /\ UNCHANGED <<deal, q>>
Ask == db # <<>> /\ q = <<>> /\ q' \in Qs /\ UNCHANGED <<deal, db>>
DbOne == TLCEval(Db(One))
Next == Load \/ Ask
Spec == Init /\ [][Next]_vars
Asked == q # <<>>
Independent == Asked => Answer(q, db) = Answer(q, DbOne)
OffsetLaw == Asked => Answer(q, db) = Skip(Answer([q EXCEPT !.off = Zeros(4)], db), q.off)
Unmerged ==     \* without merging, each file's observations, which merge to the merged answer
  (Asked /\ ~Fenced(q) /\ WIsZero(q.off)) =>
    LET a == Answer(q, db) u == Answer([q EXCEPT !.agg = FALSE], db) IN
    \A k \in 1..Len(a) :
      LET same == SelectSeq(u, LAMBDA e : [e EXCEPT !.f = <<>>, !.l = <<>>, !.c = <<>>] = [a[k] EXCEPT !.f = <<>>, !.l = <<>>, !.c = <<>>]) IN
      /\ same # <<>>
      /\ a[k].f = MinOf([j \in 1..Len(same) |-> same[j].f]) /\ a[k].l = MaxOf([j \in 1..Len(same) |-> same[j].l])
      /\ a[k].c = SumOf([j \in 1..Len(same) |-> same[j].c])
      /\ \A j \in 1..(Len(same) - 1) : WLe(same[j].f, same[j + 1].f)
Tested ==       \* what is found passes the test of C17 (by its merged times)
  (Asked /\ WIsZero(q.off)) => \A k \in 1..Len(db) : LET r == db[k] IN
     (Match0(q, r) /\ BwMatch(q, r) /\ Entries(q, r) # <<>>) =>
        FilterPass(q, [ok |-> TRUE, kind |-> r.kind, rrtype |-> r.rrtype, bailiwick |-> r.bw, seen |-> Seen(MergedT(r.per))])
=============================================================================
