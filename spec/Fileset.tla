------------------------------ MODULE Fileset ------------------------------
(* A set of files kept in step with a list file.  The list is read again     *)
(* when its identity (inode, modification second) has changed; afterwards    *)
(* the set is the listed files that exist.  Files that stay keep the value   *)
(* they were loaded with.                                                     *)
EXTENDS Bytes, FiniteSets
(* world: id of the list, its lines, the files that exist; set: seen, loaded *)
FNew == [id |-> "", there |-> FALSE, lines |-> <<>>, files |-> {}, seen |-> "", on |-> FALSE, set |-> {}]
Changed(z) == z.there /\ z.id # z.seen
Listed(z) == {z.lines[k] : k \in 1..Len(z.lines)}
Wanted(z) == {n \in Listed(z) : n \in z.files}
Names(S) == {e.n : e \in S}
Stay(z) == {e \in z.set : e.n \in Wanted(z)}
Leave(z) == {e \in z.set : e.n \notin Wanted(z)}
Come(z) == Wanted(z) \ Names(z.set)
=============================================================================
