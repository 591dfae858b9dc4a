-------------------------------- MODULE Tree --------------------------------
(* Ordered sets kept in trees (C35): what they answer, and what shape a      *)
(* red-black tree may have.  A shape is a root and, for each element, its    *)
(* left and right child, its parent and its colour (1 red); 0 is none.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
TMin(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
TMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
TFind(S, k) == IF k \in S THEN k ELSE 0
TNFind(S, k) == TMin({x \in S : x >= k})
TNext(S, k) == TMin({x \in S : x > k})
TPrev(S, k) == TMax({x \in S : x < k})
RECURSIVE TSort(_)
TSort(S) == IF S = {} THEN <<>> ELSE LET m == TMin(S) IN <<m>> \o TSort(S \ {m})
TRev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
(* --- shapes: t = [root, l, r, p, c] --- *)
RECURSIVE InOrder(_, _)
InOrder(t, x) == IF x = 0 THEN <<>> ELSE InOrder(t, t.l[x]) \o <<x>> \o InOrder(t, t.r[x])
RECURSIVE Height(_, _)
Height(t, x) == IF x = 0 THEN 0 ELSE LET a == Height(t, t.l[x]) b == Height(t, t.r[x]) IN 1 + (IF a > b THEN a ELSE b)
(* black nodes on every path down from x, or -1 if paths differ *)
RECURSIVE Black(_, _)
Black(t, x) == IF x = 0 THEN 0
               ELSE LET a == Black(t, t.l[x]) b == Black(t, t.r[x]) IN
                    IF a = -1 \/ a # b THEN -1 ELSE a + (1 - t.c[x])
RedBlack(t, S) ==
  /\ t.root # 0 => t.p[t.root] = 0
  /\ \A x \in S : /\ t.l[x] # 0 => t.p[t.l[x]] = x
                  /\ t.r[x] # 0 => t.p[t.r[x]] = x
                  /\ (t.c[x] = 1 /\ x # t.root) => \A y \in {t.l[x], t.r[x]} \ {0} : t.c[y] = 0
  /\ Black(t, t.root) # -1
  /\ 2 ^ Height(t, t.root) <= (Cardinality(S) + 1) * (Cardinality(S) + 1)
(* --- the red-black algorithms, on shapes --- *)
TEmpty(K) == [root |-> 0, l |-> [x \in 1..K |-> 0], r |-> [x \in 1..K |-> 0], p |-> [x \in 1..K |-> 0], c |-> [x \in 1..K |-> 0]]
Relink(t, x, y) == \* y takes x's place under x's parent
  LET q == t.p[x] IN
  IF q = 0 THEN [t EXCEPT !.root = y] ELSE IF t.l[q] = x THEN [t EXCEPT !.l[q] = y] ELSE [t EXCEPT !.r[q] = y]
RotL(t, x) == LET y == t.r[x]
                  a == IF t.l[y] # 0 THEN [t EXCEPT !.p[t.l[y]] = x] ELSE t
                  b == Relink(a, x, y)
              IN [b EXCEPT !.r[x] = t.l[y], !.p[y] = t.p[x], !.l[y] = x, !.p[x] = y]
RotR(t, x) == LET y == t.l[x]
                  a == IF t.r[y] # 0 THEN [t EXCEPT !.p[t.r[y]] = x] ELSE t
                  b == Relink(a, x, y)
              IN [b EXCEPT !.l[x] = t.r[y], !.p[y] = t.p[x], !.r[y] = x, !.p[x] = y]
Red(t, x) == x # 0 /\ t.c[x] = 1
RECURSIVE FixInsert(_, _)
FixInsert(t, x) ==
  LET q == t.p[x] IN
  IF ~Red(t, q) THEN [t EXCEPT !.c[t.root] = 0]
  ELSE LET g == t.p[q]
           left == t.l[g] = q
           u == IF left THEN t.r[g] ELSE t.l[g]
       IN IF Red(t, u) THEN FixInsert([t EXCEPT !.c[u] = 0, !.c[q] = 0, !.c[g] = 1], g)
          ELSE LET inner == (IF left THEN t.r[q] ELSE t.l[q]) = x
                   t1 == IF inner THEN (IF left THEN RotL(t, q) ELSE RotR(t, q)) ELSE t
                   q1 == IF inner THEN x ELSE q
                   x1 == IF inner THEN q ELSE x
                   t2 == [t1 EXCEPT !.c[q1] = 0, !.c[g] = 1]
               IN FixInsert(IF left THEN RotR(t2, g) ELSE RotL(t2, g), x1)
RECURSIVE Leaf(_, _, _)
Leaf(t, x, k) == LET y == IF k < x THEN t.l[x] ELSE t.r[x] IN IF y = 0 THEN x ELSE Leaf(t, y, k)
RBInsert(t, k) ==
  IF t.root = 0 THEN FixInsert([t EXCEPT !.root = k, !.l[k] = 0, !.r[k] = 0, !.p[k] = 0, !.c[k] = 1], k)
  ELSE LET q == Leaf(t, t.root, k)
           a == [t EXCEPT !.l[k] = 0, !.r[k] = 0, !.p[k] = q, !.c[k] = 1]
       IN FixInsert(IF k < q THEN [a EXCEPT !.l[q] = k] ELSE [a EXCEPT !.r[q] = k], k)
(* x (0: none) under q is one black short *)
RECURSIVE FixRemove(_, _, _)
FixRemove(t, q, x) ==
  IF Red(t, x) \/ x = t.root THEN IF x = 0 THEN t ELSE [t EXCEPT !.c[x] = 0]
  ELSE LET left == t.l[q] = x
           Near(u, y) == IF left THEN u.l[y] ELSE u.r[y]
           Far(u, y) == IF left THEN u.r[y] ELSE u.l[y]
           Rot(u, y) == IF left THEN RotL(u, y) ELSE RotR(u, y)
           RotB(u, y) == IF left THEN RotR(u, y) ELSE RotL(u, y)
           s0 == Far(t, q)
           t1 == IF Red(t, s0) THEN Rot([t EXCEPT !.c[s0] = 0, !.c[q] = 1], q) ELSE t
           s == Far(t1, q)
       IN IF ~Red(t1, t1.l[s]) /\ ~Red(t1, t1.r[s]) THEN FixRemove([t1 EXCEPT !.c[s] = 1], t1.p[q], q)
          ELSE LET n == Near(t1, s)
                   t2 == IF ~Red(t1, Far(t1, s)) THEN RotB([t1 EXCEPT !.c[n] = 0, !.c[s] = 1], s) ELSE t1
                   s2 == Far(t2, q)
                   t3 == [t2 EXCEPT !.c[s2] = t2.c[q], !.c[q] = 0]
                   t4 == IF Far(t3, s2) # 0 THEN [t3 EXCEPT !.c[Far(t3, s2)] = 0] ELSE t3
                   t5 == Rot(t4, q)
               IN [t5 EXCEPT !.c[t5.root] = 0]
RECURSIVE Leftmost(_, _)
Leftmost(t, x) == IF t.l[x] = 0 THEN x ELSE Leftmost(t, t.l[x])
(* take out x, which has at most one child *)
Splice(t, x) == LET y == IF t.l[x] # 0 THEN t.l[x] ELSE t.r[x]
                    a == Relink(t, x, y)
                IN IF y # 0 THEN [a EXCEPT !.p[y] = t.p[x]] ELSE a
Wipe(t, k) == [t EXCEPT !.l[k] = 0, !.r[k] = 0, !.p[k] = 0, !.c[k] = 0]
RBRemove(t, k) ==
  IF t.l[k] = 0 \/ t.r[k] = 0
  THEN LET y == IF t.l[k] # 0 THEN t.l[k] ELSE t.r[k]
           a == Splice(t, k)
       IN Wipe(IF t.c[k] = 0 THEN FixRemove(a, t.p[k], y) ELSE a, k)
  ELSE LET m == Leftmost(t, t.r[k])                \* the next element takes k's place
           y == t.r[m]
           q0 == t.p[m]
           a == Splice(t, m)
           b == Relink([a EXCEPT !.l[m] = a.l[k], !.r[m] = a.r[k], !.p[m] = a.p[k], !.c[m] = a.c[k]], k, m)
           d == [b EXCEPT !.p[b.l[m]] = m]
           e == IF d.r[m] # 0 THEN [d EXCEPT !.p[d.r[m]] = m] ELSE d
           q == IF q0 = k THEN m ELSE q0
       IN Wipe(IF t.c[m] = 0 THEN FixRemove(e, q, y) ELSE e, k)
=============================================================================
