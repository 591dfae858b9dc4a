-------------------------------- MODULE Life --------------------------------
(* What a caller holds of the library and in which order it may be taken and *)
(* given back.  A handle is <<kind, slot>>; needs says what else must stay   *)
(* for as long as it is held.  An entry or a text needs nothing: it is the   *)
(* caller's own.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets
Rd == <<"reader", 0>>
Qu(k) == <<"query", k>>
It(k) == <<"iter", k>>
En(k) == <<"entry", k>>
Tx(k) == <<"text", k>>
LInit == [held |-> {}, needs |-> <<>>, cont |-> <<>>]
Holds(s, h) == h \in s.held
Held(s, h) == CHOOSE i \in 1..Len(s.needs) : s.needs[i][1] = h
Users(s, h) == {s.needs[i][1] : i \in {j \in 1..Len(s.needs) : h \in s.needs[j][2]}}
Drop(seq, h) == SelectSeq(seq, LAMBDA x : x[1] # h)
(* taking a handle, given what it needs and what can be read in it *)
MayTake(s, h, deps) == ~Holds(s, h) /\ deps \subseteq s.held
Take(s, h, deps, c) == [held |-> s.held \cup {h}, needs |-> Append(s.needs, <<h, deps>>), cont |-> Append(s.cont, <<h, c>>)]
MayGive(s, h) == Holds(s, h) /\ Users(s, h) = {}
Give(s, h) == [held |-> s.held \ {h}, needs |-> Drop(s.needs, h), cont |-> Drop(s.cont, h)]
(* what h reads as: what it read as when it was taken *)
Reads(s, h) == (CHOOSE x \in {s.cont[i] : i \in 1..Len(s.cont)} : x[1] = h)[2]
Sound(s) == /\ \A i \in 1..Len(s.needs) : s.needs[i][1] \in s.held /\ s.needs[i][2] \subseteq s.held
            /\ s.held = {s.needs[i][1] : i \in 1..Len(s.needs)} /\ s.held = {s.cont[i][1] : i \in 1..Len(s.cont)}
            /\ Len(s.needs) = Cardinality(s.held)
=============================================================================
