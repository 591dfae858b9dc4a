-------------------------------- MODULE List --------------------------------
(* Doubly linked lists (C36).  Above: a list is a sequence of elements, and  *)
(* an element is in at most one list.  Below: heads, tails and links, as the *)
(* macros keep them (0 is none, -1 marks an element that is in no list).     *)
EXTENDS Integers, Sequences, FiniteSets
LPos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
LElems(q) == {q[i] : i \in 1..Len(q)}
LInsertAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
LPrepend(q, x) == <<x>> \o q
LAppend(q, x) == Append(q, x)
LBefore(q, b, x) == LInsertAt(q, LPos(q, b) - 1, x)
LAfter(q, a, x) == LInsertAt(q, LPos(q, a), x)
LUnlink(q, x) == SelectSeq(q, LAMBDA y : y # x)
LRev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
(* --- links: m = [h, t (by list), p, n (by element)] --- *)
KEmpty(ls, es) == [h |-> [l \in ls |-> 0], t |-> [l \in ls |-> 0], p |-> [x \in es |-> -1], n |-> [x \in es |-> -1]]
KPrepend(m, l, x) ==
  LET a == IF m.h[l] # 0 THEN [m EXCEPT !.p[m.h[l]] = x] ELSE [m EXCEPT !.t[l] = x]
  IN [a EXCEPT !.p[x] = 0, !.n[x] = m.h[l], !.h[l] = x]
KAppend(m, l, x) ==
  LET a == IF m.t[l] # 0 THEN [m EXCEPT !.n[m.t[l]] = x] ELSE [m EXCEPT !.h[l] = x]
  IN [a EXCEPT !.p[x] = m.t[l], !.n[x] = 0, !.t[l] = x]
KUnlink(m, l, x) ==
  LET a == IF m.n[x] # 0 THEN [m EXCEPT !.p[m.n[x]] = m.p[x]] ELSE [m EXCEPT !.t[l] = m.p[x]]
      b == IF m.p[x] # 0 THEN [a EXCEPT !.n[m.p[x]] = m.n[x]] ELSE [a EXCEPT !.h[l] = m.n[x]]
  IN [b EXCEPT !.p[x] = -1, !.n[x] = -1]
KBefore(m, l, b, x) ==
  IF m.p[b] = 0 THEN KPrepend(m, l, x)
  ELSE [m EXCEPT !.p[x] = m.p[b], !.p[b] = x, !.n[m.p[b]] = x, !.n[x] = b]
KAfter(m, l, a, x) ==
  IF m.n[a] = 0 THEN KAppend(m, l, x)
  ELSE [m EXCEPT !.n[x] = m.n[a], !.n[a] = x, !.p[m.n[a]] = x, !.p[x] = a]
KConcat(m, l, k) ==
  LET a == IF m.h[l] = 0 THEN [m EXCEPT !.h[l] = m.h[k], !.t[l] = m.t[k]]
           ELSE IF m.h[k] # 0 THEN [m EXCEPT !.n[m.t[l]] = m.h[k], !.p[m.h[k]] = m.t[l], !.t[l] = m.t[k]]
           ELSE m
  IN [a EXCEPT !.h[k] = 0, !.t[k] = 0]
RECURSIVE Forward(_, _)
Forward(m, x) == IF x <= 0 THEN <<>> ELSE <<x>> \o Forward(m, m.n[x])
RECURSIVE Backward(_, _)
Backward(m, x) == IF x <= 0 THEN <<>> ELSE <<x>> \o Backward(m, m.p[x])
=============================================================================
