------------------------------- MODULE ConcMC -------------------------------
(* The implementations by single machine steps, in every interleaving: the   *)
(* counters by one atomic instruction, the pointer by an atomic read and a   *)
(* compare-and-swap, the thread numbers under a lock.                        *)
EXTENDS Conc
CONSTANTS Threads, Kind, Max
VARIABLES mem, pc, loc, cfgs, left, lock
vars == <<mem, pc, loc, cfgs, left, lock>>
Ops == CASE Kind = "cnt" -> {<<"add", 2>>, <<"subt", 1>>, <<"zero", 0>>, <<"addn", -3>>}
         [] Kind = "ptr" -> {<<"read", 0>>} \cup {<<"pset", k>> : k \in {1, 2}}
         [] Kind = "thr" -> {<<"reg", 0>>}
Init == mem = 1 /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> <<>>] /\ cfgs = Start(1, Threads) /\ left = Max /\ lock = 0
Begin(t) == /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
            /\ \E o \in Ops : cfgs' = Call(cfgs, t, o[1], o[2]) /\ loc' = [loc EXCEPT ![t] = <<o[1], o[2], 0>>]
            /\ pc' = [pc EXCEPT ![t] = "go"] /\ UNCHANGED <<mem, lock>>
Done(t, r, m) == /\ mem' = m /\ loc' = [loc EXCEPT ![t][3] = r] /\ pc' = [pc EXCEPT ![t] = "ret"]
Go(t) == /\ pc[t] = "go"
         /\ \/ /\ loc[t][1] \notin {"pset", "reg"}
               /\ LET e == Effect(loc[t][1], loc[t][2], mem) IN Done(t, e[2], e[1]) /\ UNCHANGED lock
            \/ /\ loc[t][1] = "pset"
               /\ loc' = [loc EXCEPT ![t][3] = mem] /\ pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<mem, lock>>
            \/ /\ loc[t][1] = "reg" /\ lock = 0
               /\ lock' = t /\ loc' = [loc EXCEPT ![t][3] = mem] /\ pc' = [pc EXCEPT ![t] = "inc"] /\ UNCHANGED mem
         /\ UNCHANGED <<cfgs, left>>
Cas(t) == /\ pc[t] = "cas" /\ UNCHANGED <<cfgs, left, lock>>
          /\ IF mem = loc[t][3] THEN Done(t, 1, loc[t][2]) ELSE Done(t, 0, mem)
Inc(t) == /\ pc[t] = "inc" /\ mem' = loc[t][3] + 1 /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<cfgs, left, loc>>
Ret(t) == /\ pc[t] = "ret" /\ cfgs' = Return(cfgs, t, loc[t][3]) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<mem, loc, left, lock>>
Next == \E t \in Threads : Begin(t) \/ Go(t) \/ Cas(t) \/ Inc(t) \/ Ret(t)
Linearizable == cfgs # {}
=============================================================================
