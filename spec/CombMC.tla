------------------------------- MODULE CombMC -------------------------------
(* The way the combinators really work — cursors that lag behind, are opened *)
(* late, and are moved by seeking — against the plain meaning in Comb.  Keys *)
(* are numbers; every table over them and every history of next and seek.    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS K, NR, Mode
Keys == 1..K
End == K + 1
VARIABLES up, rm,          \* the tables: upstream, and removal (or right) tables
          p,               \* upstream cursor: next key to look at
          c,               \* per removal table: [open, at, fin] : key held, exhausted
          ord,             \* the order in which removal tables are asked
          out, ab          \* last result, and the last call
vars == <<up, rm, p, c, ord, out, ab>>
From(S, k) == IF \E x \in S : x >= k THEN CHOOSE x \in S : x >= k /\ \A y \in S : y >= k => x <= y ELSE End
Init == /\ up \in SUBSET Keys /\ rm \in [1..NR -> SUBSET Keys]
        /\ p = 1 /\ c = [i \in 1..NR |-> [open |-> FALSE, at |-> 0, fin |-> FALSE]]
        /\ ord = [i \in 1..NR |-> i] /\ out = 0 /\ ab = "seek"
Moved(i, k) == LET x == From(rm[i], k) IN IF x = End THEN [open |-> TRUE, at |-> 0, fin |-> TRUE] ELSE [open |-> TRUE, at |-> x, fin |-> FALSE]
(* one table asked whether it holds k *)
Asked(i, k) == IF ~c[i].open THEN Moved(i, k)
               ELSE IF c[i].fin \/ c[i].at >= k THEN c[i] ELSE Moved(i, k)
Hit(i, k) == LET a == Asked(i, k) IN ~a.fin /\ a.at = k
ToFront(o, j) == [n \in 1..NR |-> IF n = 1 THEN o[j] ELSE IF n <= j THEN o[n - 1] ELSE o[n]]
FirstHit(k) == IF \E j \in 1..NR : Hit(ord[j], k) THEN CHOOSE j \in 1..NR : Hit(ord[j], k) /\ \A h \in 1..(j - 1) : ~Hit(ord[h], k) ELSE 0
\* Next is split: take one upstream element, keep or skip it
Take ==
  /\ LET k == From(up, p) IN
     IF k = End THEN out' = End /\ UNCHANGED <<p, c, ord>>
     ELSE LET h == FirstHit(k) n == IF h = 0 THEN NR ELSE h
              asked == {ord[j] : j \in 1..n} IN
          /\ p' = k + 1
          /\ c' = [i \in 1..NR |-> IF i \in asked THEN Asked(i, k) ELSE c[i]]
          /\ IF Mode = "remove" THEN
               IF h = 0 THEN out' = k /\ ord' = ord
               ELSE out' = 0 /\ ord' = ToFront(ord, h)
             ELSE out' = (IF h = 0 THEN k ELSE 100 + k) /\ ord' = ord
  /\ ab' = "take"
  /\ UNCHANGED <<up, rm>>
Seek(k) ==
  /\ p' = k /\ ab' = "seek" /\ out' = 0
  /\ c' = [i \in 1..NR |-> IF ~c[i].open THEN c[i]
             ELSE IF Mode = "join" THEN [c[i] EXCEPT !.fin = FALSE, !.open = FALSE]
             ELSE IF c[i].fin \/ c[i].at > k THEN Moved(i, k) ELSE c[i]]
  /\ UNCHANGED <<up, rm, ord>>
Next == Take \/ \E k \in 1..End : Seek(k)
Spec == Init /\ [][Next]_vars
(* what Take may yield, by the plain meaning of difference and join *)
In(k) == \E i \in 1..NR : k \in rm[i]
Meaning == [][ab' = "take" => LET k == From(up, p) IN
     IF k = End THEN out' = End
     ELSE IF Mode = "remove" THEN out' = (IF In(k) THEN 0 ELSE k)
     ELSE out' = (IF In(k) THEN 100 + k ELSE k)]_vars
(* a removal cursor that is ahead of the upstream has passed nothing it may still need *)
Lag == \A i \in 1..NR : c[i].open /\ ~c[i].fin => (c[i].at \in rm[i] /\ \A x \in rm[i] : x < c[i].at => x < p)
NoLoss == \A i \in 1..NR : (c[i].open /\ c[i].fin) => ~\E x \in rm[i] : x >= p
=============================================================================
