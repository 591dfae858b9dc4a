------------------------------- MODULE IndexMC -------------------------------
(* Growing a set of types one by one: its bitmap form is well-formed, lists  *)
(* exactly the set, and membership agrees with it for every type of interest. *)
EXTENDS Merge
CONSTANTS Ts, MaxTypes
VARIABLE T
Init == T = {}
Next == Cardinality(T) < MaxTypes /\ \E t \in Ts \ T : T' = T \cup {t}
Spec == Init /\ [][Next]_T
Listed == T # {} => IndexOk(Bitmap(T)) /\ IndexTypes(Bitmap(T)) = T
Member == T # {} => \A t \in Ts, k \in {KRRsetName, KRdataName} : IndexHas(k, Bitmap(T), t) = (t \in T)
Short == \A t \in T : t < 256 => IndexTypes(<<t>>) = {t}
Two == \A t \in T : IndexTypes(<<t % 256, t \div 256>>) = {t}
Empty == \A t \in Ts : IndexHas(KRRsetName, <<>>, t) /\ (IndexHas(KRdataName, <<>>, t) <=> t \in NameBearing)
(* every proper prefix of a bitmap of more than two bytes is malformed, short, or lists fewer types *)
Prefixes == T # {} => \A n \in 3..(Len(Bitmap(T)) - 1) :
              LET p == Take(Bitmap(T), n) IN IndexOk(p) => IndexTypes(p) \subseteq T /\ IndexTypes(p) # T
=============================================================================
