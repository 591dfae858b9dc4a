---------------------------- MODULE FilesetTrace ----------------------------
(* Recorded histories of list edits, file changes and reloads (C31): one     *)
(* transition per event; the calls made to load and unload are part of the   *)
(* observation.                                                               *)
EXTENDS Fileset, CaseCheck
VARIABLES pos, z
Init == CCInit /\ pos = 1 /\ z = FNew
Ev == Case.ev[pos]
Op == Case.ops[pos]
ToSet(l) == {l[k] : k \in 1..Len(l)}
Logged(kind) == SelectSeq(Ev.log, LAMBDA x : x.k = kind)
Once(l, S) == Len(l) = Cardinality(S) /\ {[n |-> l[k].n, v |-> l[k].v] : k \in 1..Len(l)} = S
(* the set after a reload, with the values the loader returned *)
Loads == Logged("load")
AfterReload(y) == IF ~Changed(y) THEN y
                  ELSE [y EXCEPT !.seen = y.id, !.set = Stay(y) \cup {[n |-> Loads[k].n, v |-> Loads[k].v] : k \in 1..Len(Loads)}]
ReloadOk(y) ==
  IF ~Changed(y) THEN Ev.log = <<>>
  ELSE /\ Len(Loads) = Cardinality(Come(y)) /\ {Loads[k].n : k \in 1..Len(Loads)} = Come(y)
       /\ Once(Logged("unload"), Leave(y))
Order(S, l) == /\ Len(l) = Cardinality(S) /\ {[n |-> l[k].n, v |-> l[k].v] : k \in 1..Len(l)} = S
               /\ \A k \in 1..(Len(l) - 1) : LexLt(l[k].n, l[k + 1].n)
World(y) == CASE Op.e = "W" -> [y EXCEPT !.lines = Op.lines]
              [] Op.e = "C" -> [y EXCEPT !.files = @ \cup {Op.n}]
              [] Op.e = "D" -> [y EXCEPT !.files = @ \ {Op.n}]
              [] OTHER -> y
Seen(y) == [World(y) EXCEPT !.id = Ev.id, !.there = Ev.there = 1]
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, z>>
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED <<pos, z>>
     ELSE LET y == Seen(z)
              ok == \A k \in 1..Len(Ev.log) : Ev.log[k].ok = 1
              w == CASE Op.e = "R" -> AfterReload([y EXCEPT !.on = TRUE])
                     [] Op.e = "X" -> [y EXCEPT !.on = FALSE, !.set = {}, !.seen = ""]
                     [] OTHER -> y
              fit == CASE Op.e = "R" -> ReloadOk(y)
                       [] Op.e = "X" -> Once(Logged("unload"), z.set) /\ Loads = <<>>
                       [] OTHER -> Ev.log = <<>>
          IN /\ z' = w /\ pos' = pos + 1
             /\ st' = IF ok /\ fit /\ Order(w.set, Ev.get) THEN "todo" ELSE "bad"
=============================================================================
