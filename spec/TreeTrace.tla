----------------------------- MODULE TreeTrace ------------------------------
(* Recorded operations of the two trees, each with the shape it left.  In a  *)
(* case with `again' = 1 every operation starts from the first event's shape. *)
EXTENDS Tree, CaseCheck
VARIABLES pos, S
Init == CCInit /\ pos = 1 /\ S = {}
E == Case.ev[pos]
Op == E[1]
Key == E[2]
Res == E[3]
Nodes == E[5]
RB == Case.kind = "rb"
Keys(q) == {q[i] : i \in 1..Len(q)}
After == CASE Op = "i" -> S \cup {Key}
           [] Op = "r" -> S \ {Key}
           [] Op = "=" -> {Nodes[i][1] : i \in 1..Len(Nodes)}
           [] OTHER -> S
ResOk == CASE Op \in {"i", "r", "f"} -> Res = TFind(S, Key)
           [] Op = "g" -> Res = TNFind(S, Key)
           [] Op = "n" -> Res = (IF Key \in S THEN TNext(S, Key) ELSE 0)
           [] Op = "p" -> Res = (IF Key \in S THEN TPrev(S, Key) ELSE 0)
           [] Op = "m" -> Res = TMin(S)
           [] Op = "M" -> Res = TMax(S)
           [] OTHER -> TRUE
(* the driver lists the nodes in order from the root down; a list that names *)
(* each element once and in order, with consistent links, is the tree        *)
At(k) == CHOOSE i \in 1..Len(Nodes) : Nodes[i][1] = k
Shape(T) == LET pl == [k \in T |-> At(k)] IN
  TLCEval([root |-> E[4], l |-> [k \in T |-> Nodes[pl[k]][2]], r |-> [k \in T |-> Nodes[pl[k]][3]], p |-> [k \in T |-> Nodes[pl[k]][4]], c |-> [k \in T |-> Nodes[pl[k]][5]]])
ShapeOk(T) ==
  LET order == TSort(T) IN
  /\ [i \in 1..Len(Nodes) |-> Nodes[i][1]] = order
  /\ RB => E[6] = order /\ E[7] = TRev(order)
  /\ E[8] = 1 => E[6] = order
  /\ E[4] \in T \cup {0} /\ (T # {} => E[4] # 0)
  /\ \A i \in 1..Len(Nodes) : Nodes[i][2] \in T \cup {0} /\ Nodes[i][3] \in T \cup {0}
  \* every element but the root is the child of exactly one
  /\ LET kids == SelectSeq([i \in 1..2 * Len(Nodes) |-> Nodes[(i + 1) \div 2][2 + (i % 2)]], LAMBDA x : x # 0)
     IN Keys(kids) = T \ {E[4]} /\ Len(kids) = Cardinality(Keys(kids))
  /\ LET t == Shape(T) IN InOrder(t, t.root) = order /\ (RB => RedBlack(t, T))
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, S>>
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED <<pos, S>>
     ELSE IF ~(ResOk /\ ShapeOk(After)) THEN st' = "bad" /\ UNCHANGED <<pos, S>>
     ELSE st' = "todo" /\ pos' = pos + 1 /\ S' = IF Case.again = 1 /\ Op # "=" THEN S ELSE After
=============================================================================
