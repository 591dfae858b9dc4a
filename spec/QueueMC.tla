------------------------------- MODULE QueueMC -------------------------------
(* The lock-free queue as it is built: a ring of slots, each copied byte by  *)
(* byte, and two indices, each written by one side only.  Every interleaving *)
(* of the two threads' memory accesses refines Queue.  Stores of one thread  *)
(* become visible in order (x86), or, with Ordered = FALSE, in any order     *)
(* between two barriers.                                                      *)
EXTENDS Queue, FiniteSets
CONSTANTS N, Width, Vals, Ordered, Rounds
VARIABLES mem,          \* slots (each a sequence of bytes), "head", "tail"
          buf,          \* producer's stores not yet visible: sequence of [a, i, v]
          pp, cp,       \* program counters and registers
          ab,           \* the abstract state
          nv
vars == <<mem, buf, pp, cp, ab, nv>>
Torn == <<"torn">>
Elem(v) == [i \in 1..Width |-> v]
Init == /\ mem = [slot |-> [k \in 0..(N - 1) |-> Elem(0)], head |-> 0, tail |-> 0] /\ buf = <<>>
        /\ pp = [at |-> "idle", v |-> 0, h |-> 0, sp |-> 0, i |-> 0] /\ cp = [at |-> "idle", h |-> 0, t |-> 0, cnt |-> 0, got |-> <<>>, i |-> 0]
        /\ ab = QNew /\ nv = 1
Space(h, t) == (t - (h + 1)) % N
Count(h, t) == (h - t) % N
(* the producer sees its own stores *)
MyHead == IF \E k \in 1..Len(buf) : buf[k].a = "head" THEN buf[CHOOSE k \in 1..Len(buf) : buf[k].a = "head" /\ \A j \in (k+1)..Len(buf) : buf[j].a # "head"].v ELSE mem.head
Apply(m, b) == CASE b.a = "head" -> [m EXCEPT !.head = b.v] [] b.a = "slot" -> [m EXCEPT !.slot[b.s][b.i] = b.v] [] OTHER -> m
Fence == [a |-> "fence", s |-> 0, i |-> 0, v |-> 0]
Flushable == IF Ordered THEN {k \in {1} : Len(buf) >= 1}
             ELSE {k \in 1..Len(buf) : \A j \in 1..(k - 1) : buf[j].a # "fence" /\ buf[k].a # "fence"} \cup {k \in {1} : Len(buf) >= 1}
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Flush == \E k \in Flushable :
           /\ mem' = Apply(mem, buf[k]) /\ buf' = Without(buf, k)
           /\ ab' = IF buf[k].a = "head" THEN PPut(ab) ELSE ab        \* this is when the element becomes available
           /\ UNCHANGED <<pp, cp, nv>>
(* the producer may return before its stores are visible: the abstract call lasts until then *)
PCalls == pp.at = "idle" /\ nv <= Rounds /\ ab.p.s = "idle" /\ pp' = [pp EXCEPT !.at = "look", !.v = ((nv - 1) % Vals) + 1] /\ ab' = PCall(ab, ((nv - 1) % Vals) + 1)
          /\ nv' = nv + 1 /\ UNCHANGED <<mem, buf, cp>>
PLooks == pp.at = "look" /\ LET sp == Space(MyHead, mem.tail) IN
            /\ pp' = [pp EXCEPT !.at = IF sp = 0 THEN "ret" ELSE "copy", !.h = MyHead, !.sp = sp, !.i = 1]
            /\ ab' = IF sp = 0 THEN PPut(PLook(ab, N - 1)) ELSE PLook(ab, N - 1)
            /\ UNCHANGED <<mem, buf, cp, nv>>
PCopies == pp.at = "copy" /\ buf' = Append(buf, [a |-> "slot", s |-> pp.h, i |-> pp.i, v |-> pp.v])
           /\ pp' = [pp EXCEPT !.i = @ + 1, !.at = IF pp.i = Width THEN "wmb" ELSE "copy"] /\ UNCHANGED <<mem, cp, ab, nv>>
PFence == pp.at = "wmb" /\ buf' = Append(buf, Fence) /\ pp' = [pp EXCEPT !.at = "pub"] /\ UNCHANGED <<mem, cp, ab, nv>>
PPubs == pp.at = "pub" /\ buf' = Append(buf, [a |-> "head", s |-> 0, i |-> 0, v |-> (pp.h + 1) % N]) /\ pp' = [pp EXCEPT !.at = "ret"] /\ UNCHANGED <<mem, cp, ab, nv>>
PRets == pp.at = "ret" /\ ab.p.s = "done" /\ pp' = [pp EXCEPT !.at = "idle"] /\ ab' = PRet(ab) /\ UNCHANGED <<mem, buf, cp, nv>>
CCalls == cp.at = "idle" /\ cp' = [cp EXCEPT !.at = "look", !.got = <<>>, !.i = 1] /\ ab' = CCall(ab) /\ UNCHANGED <<mem, buf, pp, nv>>
CLooks == cp.at = "look" /\ LET c == Count(mem.head, mem.tail) IN
            /\ cp' = [cp EXCEPT !.at = IF c = 0 THEN "ret" ELSE "copy", !.t = mem.tail, !.cnt = c]
            /\ ab' = IF c = 0 THEN CTake(CLook(ab)) ELSE CLook(ab)
            /\ UNCHANGED <<mem, buf, pp, nv>>
CCopies == cp.at = "copy" /\ cp' = [cp EXCEPT !.got = Append(@, mem.slot[cp.t][cp.i]), !.i = @ + 1, !.at = IF cp.i = Width THEN "pub" ELSE "copy"] /\ UNCHANGED <<mem, buf, pp, ab, nv>>
CPubs == cp.at = "pub" /\ mem' = [mem EXCEPT !.tail = (cp.t + 1) % N] /\ cp' = [cp EXCEPT !.at = "ret"] /\ ab' = CTake(ab) /\ UNCHANGED <<buf, pp, nv>>
CRets == cp.at = "ret" /\ cp' = [cp EXCEPT !.at = "idle"] /\ ab' = CRet(ab) /\ UNCHANGED <<mem, buf, pp, nv>>
Next == Flush \/ PCalls \/ PLooks \/ PCopies \/ PFence \/ PPubs \/ PRets \/ CCalls \/ CLooks \/ CCopies \/ CPubs \/ CRets
Spec == Init /\ [][Next]_vars
(* the results agree with the abstract queue's *)
PAgrees == (pp.at = "ret" /\ ab.p.s = "done") => (IF ab.p.x = 1 THEN ab.p.n = pp.sp - 1 ELSE pp.sp = 0)
CAgrees == cp.at = "ret" => /\ ab.c.s = "done"
                            /\ IF ab.c.x = -1 THEN cp.cnt = 0 ELSE cp.got = Elem(ab.c.x) /\ ab.c.n = cp.cnt - 1
Bounded == Len(ab.q) <= N - 1
Fifo == \A k \in 1..(Len(ab.q) - 1) : ab.q[k + 1] = (ab.q[k] % Vals) + 1
RingOk == Len(ab.q) = Count(mem.head, mem.tail)
=============================================================================
