-------------------------------- MODULE Vec ---------------------------------
(* Growable vectors and byte buffers (C37).  Above: a vector is a sequence.  *)
(* Below: an allocation of cap cells of which the first n are in use; cells  *)
(* that were never written, or that a reallocation did not keep, are Junk.   *)
EXTENDS Integers, Sequences
VTake(s, n) == SubSeq(s, 1, n)
VClip(s, n) == IF n < Len(s) THEN VTake(s, n) ELSE s
(* --- byte buffers: a trailing NUL is the end of a C string, not content --- *)
NoTerm(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN VTake(s, Len(s) - 1) ELSE s
AddCstr(s, t) == NoTerm(s) \o t
CTerm(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN Append(s, 0) ELSE s
RStrip(s, c) == IF s # <<>> /\ s[Len(s)] = c THEN VTake(s, Len(s) - 1) ELSE s
RECURSIVE DecRev(_)
DecRev(v) == IF v < 10 THEN <<48 + v>> ELSE <<48 + (v % 10)>> \o DecRev(v \div 10)
DecText(v) == LET a == DecRev(IF v < 0 THEN -v ELSE v)
                  d == [k \in 1..Len(a) |-> a[Len(a) + 1 - k]]
              IN IF v < 0 THEN <<45>> \o d ELSE d
(* the C string a buffer's content denotes: up to the first NUL *)
UpToNul(s) == LET Z == {k \in 1..Len(s) : s[k] = 0} IN
  IF Z = {} THEN s ELSE VTake(s, (CHOOSE k \in Z : \A j \in Z : k <= j) - 1)
(* --- below: m = [n, cap, hint, mem] --- *)
Junk == -1
JunkCells(k) == [i \in 1..k |-> Junk]
MInit(h) == LET c == IF h = 0 THEN 1 ELSE h IN [n |-> 0, cap |-> c, hint |-> c, mem |-> JunkCells(c)]
MRealloc(m, c) == [m EXCEPT !.cap = c, !.mem = IF c <= Len(m.mem) THEN VTake(m.mem, c) ELSE m.mem \o JunkCells(c - Len(m.mem))]
RECURSIVE MReserve(_, _)
MReserve(m, k) == IF k > m.cap - m.n THEN MReserve(MRealloc(m, 2 * m.cap), k) ELSE m
MWrite(m, at, xs) == [m EXCEPT !.mem = [i \in 1..Len(@) |-> IF i > at /\ i <= at + Len(xs) THEN xs[i - at] ELSE @[i]]]
MAppend(m, xs) == LET r == MReserve(m, Len(xs)) IN [MWrite(r, r.n, xs) EXCEPT !.n = r.n + Len(xs)]
MContent(m) == VTake(m.mem, m.n)
MClip(m, k) == IF k < m.n THEN [m EXCEPT !.n = k] ELSE m
MReset(m) == LET z == [m EXCEPT !.n = 0] IN IF z.cap > z.hint THEN MRealloc(z, z.hint) ELSE z
MAdvance(m, k) == [m EXCEPT !.n = @ + k]
=============================================================================
