----------------------------- MODULE FilesetMC -----------------------------
(* The reload as it is done - the old entries searched by name, marked kept, *)
(* the rest unloaded - for every list over a few names (repeats included),   *)
(* every set of existing files and every history.                            *)
EXTENDS Fileset, TLC
CONSTANTS NN, ML
VARIABLES w, ents, gone, nextv, nid
vars == <<w, ents, gone, nextv, nid>>
Ns == {<<k>> : k \in 1..NN}
Lists == UNION {[1..k -> Ns] : k \in 0..ML}
Init == w = FNew /\ ents = <<>> /\ gone = {} /\ nextv = 1 /\ nid = 1
Edit == nid <= 3 /\ (\E l \in Lists : w' = [w EXCEPT !.lines = l, !.id = ToString(nid), !.there = TRUE]) /\ nid' = nid + 1 /\ UNCHANGED <<ents, gone, nextv>>
Touch == \E n \in Ns : w' = [w EXCEPT !.files = IF n \in @ THEN @ \ {n} ELSE @ \cup {n}] /\ UNCHANGED <<ents, gone, nextv, nid>>
Find(es, n) == IF \E k \in 1..Len(es) : es[k].n = n THEN CHOOSE k \in 1..Len(es) : es[k].n = n ELSE 0
RECURSIVE Build(_, _, _)
\* read the lines one by one into the new entries
Build(ls, new, v) ==
  IF ls = <<>> THEN [new |-> new, v |-> v]
  ELSE LET n == Head(ls) IN
       IF n \notin w.files \/ Find(new, n) # 0 THEN Build(Tail(ls), new, v)
       ELSE IF Find(ents, n) # 0 THEN Build(Tail(ls), Append(new, [n |-> n, v |-> ents[Find(ents, n)].v]), v)
       ELSE Build(Tail(ls), Append(new, [n |-> n, v |-> v]), v + 1)
RECURSIVE Sort(_)
Sort(es) == IF es = <<>> THEN <<>> ELSE
            LET k == CHOOSE k \in 1..Len(es) : \A j \in 1..Len(es) : LexLe(es[k].n, es[j].n) IN <<es[k]>> \o Sort(SubSeq(es, 1, k - 1) \o SubSeq(es, k + 1, Len(es)))
Reload == /\ Changed(w)
          /\ LET b == Build(w.lines, <<>>, nextv) IN
             /\ ents' = Sort(b.new) /\ nextv' = b.v
             /\ gone' = gone \cup {ents[k] : k \in {j \in 1..Len(ents) : Find(b.new, ents[j].n) = 0}}
             /\ w' = [w EXCEPT !.seen = w.id, !.set = Stay(w) \cup {b.new[k] : k \in {j \in 1..Len(b.new) : b.new[j].n \in Come(w)}}]
          /\ UNCHANGED nid
Next == Edit \/ Touch \/ Reload
Spec == Init /\ [][Next]_vars
Exact == {ents[k] : k \in 1..Len(ents)} = w.set /\ \A k \in 1..(Len(ents) - 1) : LexLt(ents[k].n, ents[k + 1].n)
Tracks == [][w.seen # w'.seen => Names(w'.set) = Wanted(w)]_vars
\* every value loaded is either held once or was unloaded, never both
Accounted == /\ \A e \in gone : \A k \in 1..Len(ents) : ents[k].v # e.v
             /\ {e.v : e \in gone} \cup {ents[k].v : k \in 1..Len(ents)} = 1..(nextv - 1)
             /\ Cardinality({e.v : e \in gone}) = Cardinality(gone)
=============================================================================
