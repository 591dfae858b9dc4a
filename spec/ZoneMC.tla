------------------------------- MODULE ZoneMC -------------------------------
(* The reader's step-by-step behaviour delivers exactly the records the      *)
(* property names, whatever the file.                                        *)
EXTENDS Zone, FiniteSets
CONSTANTS MaxItems, MaxReads
VARIABLES f, z, got
N(m, l) == [m |-> m, l |-> l]
L1 == <<97>>  L2 == <<98>>
RR(o, t, ty, rd) == [k |-> "rr", own |-> o, ttl |-> t, type |-> ty, rd |-> rd]
SoaRd == <<[k |-> "n", name |-> N("rel", <<L1>>)], [k |-> "n", name |-> N("at", <<>>)], [k |-> "b", b |-> <<0, 0, 0, 7>>], [k |-> "b", b |-> <<>>]>>
NsRd == <<[k |-> "n", name |-> N("rel", <<L2>>)]>>
Items == {[k |-> "skip"], [k |-> "ttl", n |-> 5], [k |-> "origin", name |-> <<L2>>], [k |-> "bad"],
          RR(N("abs", <<L1>>), -1, SOA, SoaRd), RR(N("rel", <<L1>>), -1, 2, NsRd), RR(N("same", <<>>), 9, 2, NsRd), RR(N("at", <<>>), -1, 1, <<[k |-> "b", b |-> <<1>>]>>)}
Init == f \in UNION {[1..k -> Items] : k \in 0..MaxItems} /\ z = ZInit /\ got = <<>>
Next == \/ z.phase = "new" /\ z' = Open(f) /\ UNCHANGED <<f, got>>
        \/ z.phase \in {"open", "done"} /\ Len(got) < MaxReads
           /\ LET r == Read(f, z) IN z' = r[1] /\ got' = Append(got, r[2]) /\ UNCHANGED f
(* declaratively *)
IsRec(i) == f[i].k = "rr"
Solid == {i \in 1..Len(f) : f[i].k \in {"rr", "bad"}}
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
Max(S) == CHOOSE i \in S : \A j \in S : i >= j
Good == Solid # {} /\ IsRec(Min(Solid)) /\ f[Min(Solid)].type = SOA
First == Min(Solid)
Stop == LET S == {i \in 1..Len(f) : i > First /\ IsRec(i) /\ f[i].type = SOA} IN IF S = {} THEN Len(f) + 1 ELSE Min(S)
In == {i \in Solid : i >= First /\ i < Stop}
Nth(n) == CHOOSE i \in In : Cardinality({j \in In : j < i}) = n - 1
OrgAt(i) ==
  LET lo == IF i > First THEN First ELSE 0
      S == {j \in 1..(i - 1) : f[j].k = "origin" /\ j > lo} IN
  IF S # {} THEN f[Max(S)].name ELSE IF i > First THEN Complete(f[First].own, <<>>, <<>>) ELSE <<>>
TtlAt(i) == IF f[i].ttl >= 0 THEN f[i].ttl ELSE LET S == {j \in 1..(i - 1) : f[j].k = "ttl"} IN IF S = {} THEN 0 ELSE f[Max(S)].n
RECURSIVE OwnAt(_)
OwnAt(i) == IF f[i].own.m # "same" THEN Complete(f[i].own, OrgAt(i), <<>>)
            ELSE LET S == {j \in In : j < i /\ IsRec(j)} IN IF S = {} THEN <<>> ELSE OwnAt(Max(S))
Refuses == (z.phase = "refused") => ~Good
Accepts == (z.phase \in {"open", "done"}) => Good
Delivers ==
  z.phase \in {"open", "done"} =>
    \A n \in 1..Len(got) :
      IF n > Cardinality(In) THEN got[n] = END
      ELSE LET i == Nth(n) IN
           IF ~IsRec(i) THEN got[n] = ERR
           ELSE /\ got[n].st = "rr" /\ got[n].type = f[i].type /\ got[n].owner = Wire(OwnAt(i))
                /\ got[n].ttl = TtlAt(i) /\ got[n].rd = Parts(f[i].rd, OrgAt(i))
(* the count is that of the records delivered, the waiting first one included *)
Counts == z.phase \in {"open", "done"} => z.count = Cardinality({n \in 1..Len(got) : got[n].st = "rr"}) + Len(z.soa)
Zone1 == z.phase \in {"open", "done"} => z.domain = Complete(f[First].own, OrgAt(First), <<>>) /\ z.serial = <<0, 0, 0, 7>>
=============================================================================
