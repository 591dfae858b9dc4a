-------------------------------- MODULE Comb --------------------------------
(* Iterator combinators over sorted tables: filter, difference ("remove")    *)
(* and left join.  A source is a tree over tables; opening it for all keys,  *)
(* one key, a prefix or a range gives an iterator, whose meaning is a cursor *)
(* over a list: seek(k) puts it before the first element with key >= k, next *)
(* yields the element after it.                                              *)
EXTENDS Bytes
Reject == 1  Stop == 2  Jump == 3
InBound(k, op) == CASE op.h = "iter" -> TRUE
                    [] op.h = "get" -> k = op.a
                    [] op.h = "prefix" -> HasPrefix(k, op.a)
                    [] OTHER -> LexLe(op.a, k) /\ LexLe(k, op.b)
Has(l, k) == \E i \in 1..Len(l) : l[i].k = k
ValOf(l, k) == (CHOOSE i \in 1..Len(l) : l[i].k = k)
SeekPos(l, k) == IF \E i \in 1..Len(l) : LexLe(k, l[i].k)
                 THEN CHOOSE i \in 1..Len(l) : LexLe(k, l[i].k) /\ \A j \in 1..(i - 1) : ~LexLe(k, l[j].k)
                 ELSE Len(l) + 1
Rule(f, k) == IF \E i \in 1..Len(f) : f[i].k = k THEN f[CHOOSE i \in 1..Len(f) : f[i].k = k] ELSE [k |-> k, d |-> 0, to |-> k]
Poison(v) == v = <<78>>
(* elements have: key, value, fail (merging this one fails)                   *)
RECURSIVE Elems(_, _)
Elems(t, op) ==
  CASE t.n = "T" -> SelectSeq(t.l, LAMBDA x : InBound(x.k, op))
    [] t.n = "F" -> SelectSeq(Elems(t.up, op), LAMBDA x : Rule(t.f, x.k).d = 0)
    [] t.n = "R" -> LET rm == [i \in 1..Len(t.rm) |-> Elems(t.rm[i], op)] IN
                    SelectSeq(Elems(t.up, op), LAMBDA x : \A i \in 1..Len(rm) : ~Has(rm[i], x.k))
    [] OTHER -> LET r == Elems(t.right, op) l == Elems(t.up, op) IN
                [i \in 1..Len(l) |-> IF Has(r, l[i].k) THEN [k |-> l[i].k, v |-> l[i].v \o <<255>> \o r[ValOf(r, l[i].k)].v] ELSE l[i]] \o <<>>
(* the outermost combinator as a machine over its upstream list              *)
Open(t, op) == [t |-> t, up |-> Elems(t.up, op),
                other |-> IF t.n = "R" THEN [i \in 1..Len(t.rm) |-> Elems(t.rm[i], op)] \o <<>> ELSE IF t.n = "J" THEN <<Elems(t.right, op)>> ELSE <<>>,
                p |-> 1, filtered |-> 0, merged |-> 0, seeks |-> 0, res |-> <<>>]
DoSeek(s, k) == [s EXCEPT !.p = SeekPos(s.up, k), !.res = <<>>]
RECURSIVE DoNext(_)
DoNext(s) ==
  IF s.p > Len(s.up) THEN [s EXCEPT !.res = <<>>]
  ELSE LET x == s.up[s.p] IN
  CASE s.t.n = "F" ->
       LET r == Rule(s.t.f, x.k) IN
       IF r.d = 0 THEN [s EXCEPT !.p = @ + 1, !.res = <<x>>]
       ELSE IF r.d = Stop THEN [s EXCEPT !.p = @ + 1, !.res = <<>>]
       ELSE IF r.d = Jump THEN DoNext([s EXCEPT !.p = SeekPos(s.up, r.to), !.filtered = @ + 1, !.seeks = @ + 1])
       ELSE DoNext([s EXCEPT !.p = @ + 1, !.filtered = @ + 1])
    [] s.t.n = "R" ->
       IF \E i \in 1..Len(s.other) : Has(s.other[i], x.k) THEN DoNext([s EXCEPT !.p = @ + 1, !.filtered = @ + 1])
       ELSE [s EXCEPT !.p = @ + 1, !.res = <<x>>]
    [] OTHER ->
       LET r == s.other[1] IN
       IF ~Has(r, x.k) THEN [s EXCEPT !.p = @ + 1, !.res = <<x>>]
       ELSE LET y == r[ValOf(r, x.k)] IN
            IF Poison(y.v) THEN [s EXCEPT !.p = @ + 1, !.res = <<>>]
            ELSE [s EXCEPT !.p = @ + 1, !.merged = @ + 1, !.res = <<[k |-> x.k, v |-> x.v \o <<255>> \o y.v]>>]
=============================================================================
