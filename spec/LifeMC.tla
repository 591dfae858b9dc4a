------------------------------- MODULE LifeMC -------------------------------
(* A library that keeps a block of memory per handle, and, as real ones do,  *)
(* lets an iterator own further blocks and an entry copy what it shows from  *)
(* a window that the next step overwrites.  In every permitted order of      *)
(* taking and giving back: nothing is used after it is gone, entries keep    *)
(* what they showed, and an empty-handed caller leaves nothing behind.       *)
EXTENDS Life, TLC
CONSTANTS MaxOps, Slots
VARIABLES s, mem, window, n
vars == <<s, mem, window, n>>
Own(h) == CASE h[1] = "iter" -> {<<h, i>> : i \in 1..3} [] OTHER -> {<<h, 1>>}
Init == s = LInit /\ mem = {} /\ window = [k \in Slots |-> 0] /\ n = 0
TakeIt(h, deps, c) == MayTake(s, h, deps) /\ s' = Take(s, h, deps, c) /\ mem' = mem \cup Own(h)
GiveIt(h) == MayGive(s, h) /\ s' = Give(s, h) /\ mem' = mem \ Own(h)
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ TakeIt(Rd, {}, 0) /\ UNCHANGED window
           \/ \E k \in Slots : TakeIt(Qu(k), {}, 0) /\ UNCHANGED window
           \/ \E k \in Slots, j \in Slots : TakeIt(It(k), {Rd, Qu(j)}, 0) /\ window' = [window EXCEPT ![k] = 0]
           \/ \E k \in Slots : TakeIt(It(k), {Rd}, 0) /\ window' = [window EXCEPT ![k] = 0]      \* a scan needs no query
           \/ \E k \in Slots, e \in Slots :
                /\ Holds(s, It(k)) /\ window[k] < 3
                /\ window' = [window EXCEPT ![k] = window[k] + 1]
                /\ TakeIt(En(e), {}, window[k] + 1)
           \/ \E e \in Slots : Holds(s, En(e)) /\ TakeIt(Tx(e), {}, Reads(s, En(e))) /\ UNCHANGED window
           \/ \E h \in s.held : GiveIt(h) /\ UNCHANGED window
Spec == Init /\ [][Next]_vars
TypeOk == Sound(s)
NothingDangles == \A k \in Slots : Holds(s, It(k)) => Holds(s, Rd)
NothingLeft == s.held = {} => mem = {}
NothingEarly == \A h \in s.held : Own(h) \subseteq mem
Kept == [][\A e \in Slots : (Holds(s, En(e)) /\ Holds(s', En(e))) => Reads(s, En(e)) = Reads(s', En(e))]_vars
=============================================================================
