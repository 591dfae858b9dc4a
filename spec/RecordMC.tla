------------------------------ MODULE RecordMC ------------------------------
(* Storing and decoding are inverse, and decoding never needs more than the  *)
(* record: every record over a small universe is stored; then the stored key *)
(* or value may be damaged byte by byte.                                      *)
EXTENDS Record, FiniteSets, TLC
CONSTANTS MaxDamage
VARIABLES rec, key, val, damage
vars == <<rec, key, val, damage>>
Ls == {<<97>>, <<98, 0>>}
Names == {<<0>>, <<1, 97, 0>>, <<1, 97, 2, 98, 0, 0>>}
Rds == {<<>>, <<7>>, <<200, 0, 7>>}
Nums == {Zeros(4), <<0, 0, 0, 127>>, <<0, 0, 0, 128>>, Ones(4)}
Recs ==
  [kind : {KRRset}, name : Names, bailiwick : Names, rrtype : {1, 128, 65535}, rdatas : {<<>>, <<<<7>>>>, <<<<>>, <<200, 0, 7>>>>},
   first : {<<0, 0, 0, 1>>}, last : {Zeros(4), Ones(4)}, count : {Zeros(4), <<0, 0, 0, 128>>}]
  \cup [kind : {KRdata}, name : Names, rrtype : {1, 128, 65535}, rdatas : {<<r>> : r \in Rds}, slice : {0, 1, 3},
        first : {<<0, 0, 0, 1>>}, last : {Zeros(4), Ones(4)}, count : {Zeros(4), <<0, 0, 0, 128>>}]
  \cup [kind : {KRRsetName, KRdataName}, name : Names, index : {<<>>, <<2>>, <<0, 1, 64>>}]
  \cup [kind : {KSource}, text : {<<>>, <<65>>}]
  \cup [kind : {KTimeRange}, first : Nums, last : Nums]
  \cup [kind : {KVersion}, vkind : {0, 3, 9}, version : {<<0, 0>>, <<1, 5>>, <<65535, 65535>>}]
Init == /\ rec \in {r \in Recs : ~("slice" \in DOMAIN r) \/ r.slice <= Len(r.rdatas[1])}
        /\ key = EncKey(rec) /\ val = EncVal(rec) /\ damage = 0
Damage ==
  /\ damage < MaxDamage /\ damage' = damage + 1
  /\ \/ /\ key # <<>> /\ \E k \in 1..Len(key), b \in {0, 1, 64, 128, 255} : key' = [key EXCEPT ![k] = b]
        /\ UNCHANGED val
     \/ /\ key # <<>> /\ \E n \in 0..(Len(key) - 1) : key' = Take(key, n)
        /\ UNCHANGED val
     \/ /\ val # <<>> /\ \E k \in 1..Len(val), b \in {0, 128, 255} : val' = [val EXCEPT ![k] = b]
        /\ UNCHANGED key
     \/ /\ val # <<>> /\ \E n \in 0..(Len(val) - 1) : val' = Take(val, n)
        /\ UNCHANGED key
     \/ \E b \in {0, 128} : key' = Append(key, b) /\ UNCHANGED val
     \/ \E b \in {0, 128} : val' = Append(val, b) /\ UNCHANGED key
  /\ UNCHANGED rec
Next == Damage
Spec == Init /\ [][Next]_vars
HasSeen == {KRRset, KRdata}
RoundTrip ==
  damage = 0 =>
    LET d == Decode(key, val) IN
    /\ d.ok /\ d.kind = rec.kind
    /\ rec.kind \in {KRRset, KRdata} => /\ d.name = rec.name /\ d.rrtype = rec.rrtype /\ d.rdatas = rec.rdatas
                                         /\ d.seen = Seen([first |-> rec.first, last |-> rec.last, count |-> rec.count])
    /\ rec.kind = KRRset => d.bailiwick = rec.bailiwick
    /\ rec.kind \in {KRRsetName, KRdataName} => d.name = rec.name /\ d.index = rec.index
    /\ rec.kind = KTimeRange => d.seen.first = rec.first /\ d.seen.last = rec.last
    /\ rec.kind = KVersion => d.version = rec.version /\ d.vkind = rec.vkind
    /\ rec.kind = KSource => d.text = rec.text
(* every field of a decoded record lies within the record *)
Within ==
  LET d == Decode(key, val) IN
  d.ok /\ d.kind \in HasSeen =>
    /\ IsName(d.name) /\ d.rrtype \in 0..65535
    /\ LET sum[k \in 0..Len(d.rdatas)] == IF k = 0 THEN 0 ELSE sum[k - 1] + Len(d.rdatas[k])
       IN Len(d.name) + sum[Len(d.rdatas)] < Len(key)
    /\ ~WIsZero(d.seen.count)
=============================================================================
