------------------------------- MODULE VecMC --------------------------------
(* The allocation implements the sequence, through every growth boundary. *)
EXTENDS Vec
CONSTANTS Hints, MaxLen, Vals
VARIABLES s, m
Init == \E h \in Hints : s = <<>> /\ m = MInit(h)
Lists == UNION {[1..k -> Vals] : k \in 0..3}
Next ==
  \/ \E xs \in Lists : Len(s) + Len(xs) <= MaxLen /\ s' = s \o xs /\ m' = MAppend(m, xs)
  \/ Len(s) * 2 <= MaxLen /\ s' = s \o s /\ m' = MAppend(m, MContent(m))
  \/ \E k \in 0..MaxLen : s' = VClip(s, k) /\ m' = MClip(m, k)
  \/ s' = <<>> /\ m' = MReset(m)
  \/ s' = <<>> /\ m' = MInit(m.hint)
  \* reserve, write into the tail, advance over what was written
  \/ \E k \in 0..4 : \E xs \in Lists : Len(xs) <= k /\ Len(s) + Len(xs) <= MaxLen
       /\ LET r == MReserve(m, k) IN m' = MAdvance(MWrite(r, r.n, xs), Len(xs)) /\ s' = s \o xs
Implements == /\ MContent(m) = s
              /\ m.n <= m.cap /\ m.cap >= 1 /\ Len(m.mem) = m.cap
              /\ \A k \in 1..m.n : m.mem[k] # Junk
Reserves == \A k \in 0..(MaxLen + 3) : LET r == MReserve(m, k) IN r.cap - r.n >= k /\ MContent(r) = s
Strings == /\ NoTerm(CTerm(s)) = NoTerm(s) /\ CTerm(CTerm(s)) = CTerm(s)
           /\ UpToNul(CTerm(s)) = UpToNul(s)
           /\ \A v \in Vals : RStrip(Append(s, v), v) = s
=============================================================================
