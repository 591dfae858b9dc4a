------------------------------- MODULE Follow -------------------------------
(* The life of one reader of a set file.                                     *)
(*   disk   the files named by the set file now, that exist                  *)
(*   maybe  the sets of files the reader may be answering from: one, unless  *)
(*          it was told to reload while iterators were open (the change may  *)
(*          then take effect at once or when they are closed and it is told  *)
(*          again)                                                           *)
(*   its    per slot: what was asked, the sets of files it may answer from,  *)
(*          what it delivered, whether it has ended                          *)
EXTENDS Naturals, Sequences, FiniteSets
Slots == 1..3
Closed == [open |-> FALSE]
FInit == [disk |-> {}, maybe |-> {}, its |-> [k \in Slots |-> Closed]]
Idle(s) == \A k \in Slots : ~s.its[k].open
FList(s, F) == [s EXCEPT !.disk = F]
FStart(s) == [s EXCEPT !.maybe = {s.disk}]
FReload(s) == [s EXCEPT !.maybe = (IF Idle(s) THEN {} ELSE s.maybe) \cup {s.disk}]
FOpen(s, k, what) == [s EXCEPT !.its[k] = [open |-> TRUE, what |-> what, cands |-> s.maybe, got |-> <<>>, done |-> FALSE]]
FClose(s, k) == [s EXCEPT !.its[k] = Closed]
(* n more entries wanted from slot k (all of them: n < 0, here n = -1 is     *)
(* written 1000000); res delivered, ended says whether the end was reported. *)
(* Fits(what, F, got, complete): got is a beginning of (all of) what there   *)
(* is for it in the files F                                                  *)
FGet(s, k, n, res, ended, Fits(_, _, _, _)) ==
  LET it == s.its[k]
      got == it.got \o res
      ok == {F \in it.cands : Fits(it.what, F, got, ended)}
  IN [s EXCEPT !.its[k] = [it EXCEPT !.cands = IF it.done /\ res # <<>> THEN {} ELSE ok, !.got = got, !.done = (it.done \/ ended)]]
FGetOk(s, k, n, res, ended) == Len(res) <= n /\ (~ended => Len(res) = n)
Settled(s) == \A k \in Slots : s.its[k].open => s.its[k].cands # {}
=============================================================================
