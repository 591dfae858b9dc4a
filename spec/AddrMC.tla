------------------------------- MODULE AddrMC -------------------------------
(* Walking the addresses of a range.  Address records lie among all other    *)
(* records sorted by data: the data's bytes, the type, the owner's name, the *)
(* length of the data.  Other records (longer addresses, other types) are    *)
(* leapt over by guessing, from the bytes of the record stood upon, the next *)
(* key an address record could have.  No leap may pass an address record,    *)
(* and every leap must lead forward.                                         *)
(* Here bytes are 0..Top, addresses have Alen bytes, the wanted type is 1,   *)
(* and labels have at most one byte.                                         *)
EXTENDS Bytes, FiniteSets
CONSTANTS Top, Alen, Junk
VARIABLES other, cur, addr, st
vars == <<other, cur, addr, st>>
B == 0..Top
T == 1  MaxL == 1
Strings(n) == [1..n -> B]
Addrs == Strings(Alen)
Owners == {<<0>>} \cup {<<1, b, 0>> : b \in B} \cup {<<1, b, 1, 0, 0>> : b \in B}
AddrKeys == {a \o <<T>> \o o \o <<Alen>> : a \in Addrs, o \in Owners}
(* a record of another kind: any bytes at all, not an address record *)
OtherKeys == UNION {Strings(n) : n \in 1..Junk}
Init == /\ other \in OtherKeys /\ ~(\E a \in AddrKeys : a = other) /\ cur = other /\ addr = <<>> /\ st = "start"
Fail == <<"none">>
RECURSIVE Incr(_, _)
Incr(k, n) == IF n = 0 THEN Fail ELSE IF k[n] < Top THEN [k EXCEPT ![n] = @ + 1] ELSE Incr([k EXCEPT ![n] = 0], n - 1)
Fill0(s, n) == s \o [k \in 1..(n - Len(s)) |-> 0]
(* guess from key k how far to go: s is the part of it read as an address record so far *)
RECURSIVE Read(_, _)
Read(k, s) ==
  IF Len(s) >= Len(k) THEN k \o <<0>>
  ELSE LET l == k[Len(s) + 1] IN
    IF l > MaxL THEN Incr(s, Len(s))
    ELSE IF l = 0 THEN LET w == s \o <<0, Alen>> IN IF LexLt(k, w) THEN w ELSE Incr(s \o <<0>>, Len(s) + 1)
    ELSE IF l + 1 + Len(s) > Len(k) THEN Fill0(k, l + 1 + Len(s))
    ELSE Read(k, Take(k, Len(s) + 1 + l))
Leap(k) ==
  IF Len(k) < Alen THEN Fill0(k, Alen) \o <<T>>
  ELSE LET s == Take(k, Alen) \o <<T>>
           head == Take(k, Min2(Len(k), Alen + 1))
       IN IF LexLt(s, head) THEN LET i == Incr(s, Alen) IN i
          ELSE IF LexLt(head, s) THEN s
          ELSE IF Len(k) <= Alen + 1 THEN k \o <<0>>
          ELSE IF k[Alen + 2] > MaxL THEN Incr(s, Alen)      \* not a name: on to the next address
          ELSE Read(k, s)
Go == st = "start" /\ cur' = Leap(other) /\ addr' \in AddrKeys /\ st' = "leapt" /\ UNCHANGED other
Next == Go
Spec == Init /\ [][Next]_vars
NonePassed == st = "leapt" /\ LexLt(other, addr) => cur # Fail /\ LexLe(cur, addr)
Forward == st = "leapt" => cur = Fail \/ LexLt(other, cur)
=============================================================================
