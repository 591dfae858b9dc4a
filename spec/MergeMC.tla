------------------------------- MODULE MergeMC -------------------------------
(* Values of one key are merged two at a time in any order and grouping      *)
(* until one is left; it must mean the merge of all of them.                  *)
EXTENDS Merge
CONSTANT N
VARIABLES key, start, left
vars == <<key, start, left>>
W(n) == OfNat(4, n)
Vals(k) == CASE k = <<KRRset>> -> {PackTriplet(W(a), W(b), W(c)) : a \in {1, 200}, b \in {0, 300}, c \in {0, 2}} \cup {PackTriplet(Ones(4), Ones(4), W(1))}
             [] k = <<KRRsetName>> -> {<<>>, <<1>>, <<255>>, <<1, 0>>, <<1, 1>>, <<0, 1, 64>>, <<0, 1, 96, 1, 1, 64>>, <<255, 1, 128>>}
             [] k = <<KTimeRange>> -> {<<>>} \cup {PackPair(W(a), W(b)) : a \in {1, 200}, b \in {1, 300}}
             [] k = <<KVersion, 0>> -> {<<>>, <<0>>, <<1>>, <<128, 1>>}
             [] k = <<KVersion, 9>> -> {<<>>, <<1>>}
             [] OTHER -> {<<>>, <<1>>}
Keys == {<<KRRset>>, <<KRRsetName>>, <<KTimeRange>>, <<KVersion, 0>>, <<KVersion, 9>>, <<KSource, 65>>}
Init == /\ key \in Keys
        /\ \E n \in 2..N : start \in [1..n -> Vals(key)]
        /\ left = start
Without(s, i, j) == SelectSeq([x \in 1..Len(s) |-> <<x, s[x]>>], LAMBDA y : y[1] # i /\ y[1] # j)
Merge == /\ Len(left) > 1
         /\ \E i, j \in 1..Len(left) :
              /\ i # j
              /\ LET r == Without(left, i, j) IN
                 left' = Append([x \in 1..Len(r) |-> r[x][2]], MergeTwo(key, left[i], left[j]))
         /\ UNCHANGED <<key, start>>
Next == Merge
Spec == Init /\ [][Next]_vars
Confluent == Len(left) = 1 => MergeOk(key, start, left[1])
=============================================================================
