----------------------------- MODULE MergeToolMC -----------------------------
(* Tables merged by any sequence of runs, each reading some tables not yet   *)
(* read and writing a new one: when one is left it is the merge of all the   *)
(* first ones, whatever was merged with what.                                 *)
EXTENDS MergeTool
CONSTANTS N, Rich
VARIABLES first, left
vars == <<first, left>>
W(n) == OfNat(4, n)
KA == <<KRRset, 0>>  KB == <<KRRsetName, 1, 97, 0>>  KT == <<KTimeRange>>  KS == <<KSource, 65>>  KV == <<KVersion, 0>>
Absent == <<999>>
T(p) == SelectSeq(p, LAMBDA x : x.v # Absent)
R(k, v) == [k |-> k, v |-> v]
Pool == {T(<<R(KA, a), R(KB, b), R(KT, t), R(KS, s)>>) :
           a \in {Absent, PackTriplet(W(1), W(9), W(2)), PackTriplet(W(3), W(300), W(1))},
           b \in {Absent, <<>>, <<1>>, <<0, 1, 96>>}, t \in IF ~Rich THEN {Absent} ELSE {Absent, PackPair(W(5), W(6))}, s \in IF ~Rich THEN {Absent} ELSE {Absent, <<>>}}
Init == \E n \in 2..N : first \in [1..n -> Pool] /\ left = first
Seqs(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN p : p[i] = p[j] => i = j}
RECURSIVE Fold(_, _)
Fold(k, vs) == IF Len(vs) = 1 THEN vs[1] ELSE Fold(k, <<MergeTwo(k, vs[1], vs[2])>> \o SubSeq(vs, 3, Len(vs)))
RECURSIVE KeySeq(_)
KeySeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ LexLt(x, y) IN <<m>> \o KeySeq(S \ {m})
MergeAll(tabs) == LET ks == KeySeq(UNION {Keys(tabs[i]) : i \in 1..Len(tabs)}) IN
  [i \in 1..Len(ks) |-> R(ks[i], Fold(ks[i], Held(tabs, ks[i])))]
Run == /\ Len(left) > 1
       /\ \E S \in SUBSET (1..Len(left)) : Cardinality(S) > 1 /\ \E p \in Seqs(S) :
            left' = [i \in 1..(Len(left) - Cardinality(S)) |-> left[KeySeq({<<x>> : x \in (1..Len(left)) \ S})[i][1]]]
                    \o <<MergeAll([i \in 1..Cardinality(S) |-> left[p[i]]])>>
       /\ UNCHANGED first
Next == Run
Spec == Init /\ [][Next]_vars
MergedAll == Len(left) = 1 => IsMergeOf(left[1], first)
=============================================================================
