------------------------------ MODULE FollowMC ------------------------------
(* An abstract reader that pins the files an iterator began with, reloading  *)
(* at once (Defer = FALSE) or, while iterators are open, at the next reload  *)
(* after they are closed (Defer = TRUE).  Everything it does is allowed by   *)
(* Follow, and whatever Follow allows answers from one listing at a time.    *)
EXTENDS Follow, TLC
CONSTANTS Defer, MaxLists
Files == 1..2
Keys == 1..2
Holds == [f \in Files |-> IF f = 1 THEN {1, 2} ELSE {2}]
(* the answer to "all": keys in order, each with the files it is merged from *)
Has(F, x) == {f \in F : x \in Holds[f]}
Ans(F) == SelectSeq([x \in Keys |-> <<x, Has(F, x)>>], LAMBDA e : e[2] # {})
Fits(what, F, got, complete) == /\ Len(got) <= Len(Ans(F)) /\ got = SubSeq(Ans(F), 1, Len(got))
                                /\ complete => Len(got) = Len(Ans(F))
VARIABLES s, loaded, pin, lists, ok
vars == <<s, loaded, pin, lists, ok>>
MInit == s = FInit /\ loaded = {} /\ pin = [k \in Slots |-> [F |-> {}, at |-> 0]] /\ lists = 0 /\ ok = TRUE
List == lists < MaxLists /\ \E F \in SUBSET Files : s' = FList(s, F) /\ lists' = lists + 1 /\ UNCHANGED <<loaded, pin, ok>>
Start == s.maybe = {} /\ s' = FStart(s) /\ loaded' = s.disk /\ UNCHANGED <<pin, lists, ok>>
Reload == s.maybe # {} /\ s' = FReload(s) /\ loaded' = (IF Defer /\ ~Idle(s) THEN loaded ELSE s.disk) /\ UNCHANGED <<pin, lists, ok>>
Open(k) == s.maybe # {} /\ ~s.its[k].open /\ s' = FOpen(s, k, "all") /\ pin' = [pin EXCEPT ![k] = [F |-> loaded, at |-> 0]] /\ UNCHANGED <<loaded, lists, ok>>
Close(k) == s.its[k].open /\ s' = FClose(s, k) /\ UNCHANGED <<loaded, pin, lists, ok>>
Get(k) == s.its[k].open /\ ~s.its[k].done /\
  LET a == Ans(pin[k].F)
      res == IF pin[k].at < Len(a) THEN <<a[pin[k].at + 1]>> ELSE <<>>
      ended == pin[k].at >= Len(a)
  IN /\ s' = FGet(s, k, 1, res, ended, Fits) /\ ok' = FGetOk(s, k, 1, res, ended)
     /\ pin' = [pin EXCEPT ![k].at = @ + Len(res)] /\ UNCHANGED <<loaded, lists>>
MNext == List \/ Start \/ Reload \/ \E k \in 1..2 : Open(k) \/ Close(k) \/ Get(k)
Conforms == ok /\ Settled(s) /\ (s.maybe # {} => loaded \in s.maybe)
(* an iterator never mixes listings, and a lookup begun when nothing was open*)
(* at the latest reload answers from the listing of that reload              *)
OneListing == \A k \in 1..2 : s.its[k].open => pin[k].F \in s.its[k].cands
Whole == \A k \in 1..2 : (s.its[k].open /\ s.its[k].done) => s.its[k].got = Ans(pin[k].F)
=============================================================================
