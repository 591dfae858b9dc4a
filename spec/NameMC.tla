------------------------------- MODULE NameMC -------------------------------
(* Finding the names under a wildcard by walking a sorted table.  Names are  *)
(* stored label-reversed (or label-forward, in the name index); a wildcard   *)
(* on the other end is then a prefix of the stored bytes.  A single-label    *)
(* wildcard leaps over everything with more labels.  The walk must visit     *)
(* exactly the names that match label by label, whatever the table holds.    *)
EXTENDS Query
CONSTANT Depth
VARIABLES pat, store, side, cur, found, st
vars == <<pat, store, side, cur, found, st>>
Ls == {<<1>>, <<2>>, <<1, 1>>}          \* label bytes that look like lengths
Names == UNION {[1..n -> Ls] : n \in 0..Depth}
(* as stored: reversed for a pattern open on the left, forward otherwise *)
Key(ls) == IF side = "L" THEN Wire(Rev(ls)) ELSE Wire(ls)
Keys == {Key(n) : n \in store}
Fixed == IF side = "L" THEN Rev(Tail(pat)) ELSE Front(pat)
Prefix == LET w == Wire(Fixed) IN Take(w, Len(w) - 1)
Single == (IF side = "L" THEN Head(pat) ELSE pat[Len(pat)]) = Plus
Least(S) == CHOOSE k \in S : \A j \in S : LexLe(k, j)
Init == /\ side \in {"L", "R"}
        /\ \E f \in UNION {[1..n -> Ls] : n \in 0..2}, w \in {Star, Plus} : pat = IF side = "L" THEN <<w>> \o f ELSE f \o <<w>>
        /\ store = {} /\ cur = <<>> /\ found = {} /\ st = "empty"
Fill == /\ st = "empty" /\ (\E a, b, c \in Names : store' = {a, b, c}) /\ st' = "walk" /\ cur' = Prefix
        /\ UNCHANGED <<pat, side, found>>
(* cur: the walk stands before the least key not below cur *)
After(k) == Append(k, 0)
Bump(k) == [k EXCEPT ![Len(k)] = @ + 1]
Walk ==
  /\ st = "walk"
  /\ LET C == {k \in Keys : LexLe(cur, k)} IN
     IF C = {} THEN st' = "done" /\ UNCHANGED <<cur, found>>
     ELSE LET k == Least(C) n == Len(Prefix) IN
       IF ~HasPrefix(k, Prefix) THEN st' = "done" /\ UNCHANGED <<cur, found>>
       ELSE /\ st' = st
            /\ IF ~Single THEN found' = found \cup {k} /\ cur' = After(k)
               ELSE IF k[n + 1] = 0 THEN found' = found /\ cur' = Bump(Take(k, n + 1))
               ELSE LET e == n + k[n + 1] + 1 IN
                    IF k[e + 1] = 0 THEN found' = found \cup {k} /\ cur' = After(k)
                    ELSE found' = found /\ cur' = Bump(Take(k, e))
  /\ UNCHANGED <<pat, store, side>>
Next == Fill \/ Walk
Spec == Init /\ [][Next]_vars
Matches == {n \in store : IF side = "L" THEN UnderSuffix(n, pat) ELSE UnderPrefix(n, pat)}
Exact == st = "done" => found = {Key(n) : n \in Matches}
Sound == found \subseteq {Key(n) : n \in Matches}
=============================================================================
