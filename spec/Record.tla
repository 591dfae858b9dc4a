------------------------------- MODULE Record -------------------------------
(* The records of a dnstable: what a stored key and value mean.             *)
(*                                                                           *)
(*   key[1]  kind          rest of the key                       value       *)
(*   0       rrset         rev(owner) type rev(bailiwick) {len rdata}  triplet *)
(*   1       rrset name    owner                                 type index  *)
(*   2       rdata         data type rev(owner) [slice] len16    triplet     *)
(*   3       rdata name    rev(name)                             type index  *)
(*   253     source info   text                                  -           *)
(*   254     time range    -                                     first last  *)
(*   255     version       kind                                  version     *)
(*                                                                           *)
(* 64-bit numbers are words of four limbs, 32-bit numbers two limbs.         *)
EXTENDS Words, Bytes
V == INSTANCE Varint WITH Vals <- {}, Max <- 10, v <- <<>>, inb <- <<>>, pos <- 0, acc <- <<>>, st <- ""

KRRset == 0   KRRsetName == 1   KRdata == 2   KRdataName == 3
KSource == 253   KTimeRange == 254   KVersion == 255
Kinds == {KRRset, KRRsetName, KRdata, KRdataName, KSource, KTimeRange, KVersion}

(* ---- names: labels each preceded by their length, then a zero byte ---- *)
(* length of the name starting at offset p of bs, 0 if there is none *)
RECURSIVE UNameAt(_, _, _)
UNameAt(bs, p, n) ==
  IF p >= Len(bs) THEN 0
  ELSE LET l == bs[p + 1] IN
       IF l = 0 THEN (IF n + 1 <= 255 THEN n + 1 ELSE 0)
       ELSE IF l > 63 THEN 0 ELSE UNameAt(bs, p + l + 1, n + l + 1)
NameLen(bs, p) == UNameAt(bs, p, 0)
IsName(bs) == Len(bs) > 0 /\ NameLen(bs, 0) = Len(bs)
RECURSIVE LabelsFrom(_, _)
LabelsFrom(n, p) == IF p >= Len(n) \/ n[p + 1] = 0 THEN <<>>
                    ELSE <<SubSeq(n, p + 2, p + 1 + n[p + 1])>> \o LabelsFrom(n, p + n[p + 1] + 1)
Labels(n) == LabelsFrom(n, 0)
RECURSIVE Wire(_)
Wire(ls) == IF ls = <<>> THEN <<0>> ELSE <<Len(Head(ls))>> \o Head(ls) \o Wire(Tail(ls))
RevName(n) == Wire(Rev(Labels(n)))

(* ---- numbers ---- *)
(* the varint at offset p of bs, of at most max bytes: [n |-> 0] if there is none *)
VarAt(bs, p, max, limbs) ==
  LET r == SubSeq(bs, p + 1, Min2(Len(bs), p + max))
      n == V!PackedLen(r, max)
  IN IF n = 0 THEN [n |-> 0] ELSE [n |-> n, v |-> V!Value(r, n, limbs)]
None == [ok |-> FALSE]
Triplet(val) ==
  LET a == VarAt(val, 0, 10, 4) IN IF a.n = 0 THEN None ELSE
  LET b == VarAt(val, a.n, 10, 4) IN IF b.n = 0 THEN None ELSE
  LET c == VarAt(val, a.n + b.n, 10, 4) IN
  IF c.n = 0 \/ a.n + b.n + c.n # Len(val) THEN None
  ELSE [ok |-> TRUE, first |-> a.v, last |-> b.v, count |-> c.v]
Pair(val) ==
  LET a == VarAt(val, 0, 10, 4) IN IF a.n = 0 THEN None ELSE
  LET b == VarAt(val, a.n, 10, 4) IN
  IF b.n = 0 \/ a.n + b.n # Len(val) THEN None ELSE [ok |-> TRUE, first |-> a.v, last |-> b.v]
PackTriplet(f, l, c) == V!Encode(f) \o V!Encode(l) \o V!Encode(c)
PackPair(f, l) == V!Encode(f) \o V!Encode(l)
(* what a triplet says: an absent count means one, an absent last time the first *)
Seen(t) == [first |-> t.first,
            last |-> IF WIsZero(t.last) THEN t.first ELSE t.last,
            count |-> IF WIsZero(t.count) THEN WOne(4) ELSE t.count]
TypeAt(bs, p) == LET v == VarAt(bs, p, 5, 2) IN
                 IF v.n = 0 \/ v.v[1] # 0 THEN [n |-> 0] ELSE [n |-> v.n, v |-> v.v[2]]
TypeVar(t) == V!Encode(OfNat(2, t))

(* ---- decoding ---- *)
RECURSIVE RdatasAt(_, _)
RdatasAt(b, p) ==
  IF p = Len(b) THEN [ok |-> TRUE, l |-> <<>>]
  ELSE LET v == VarAt(b, p, 5, 2) IN
       IF v.n = 0 \/ v.v[1] # 0 \/ v.v[2] > Len(b) - p - v.n THEN [ok |-> FALSE]
       ELSE LET r == RdatasAt(b, p + v.n + v.v[2]) IN
            IF ~r.ok THEN r ELSE [ok |-> TRUE, l |-> <<SubSeq(b, p + v.n + 1, p + v.n + v.v[2])>> \o r.l]
DecRRset(b, val) ==
  LET n1 == NameLen(b, 0) IN IF n1 = 0 THEN None ELSE
  LET t == TypeAt(b, n1) IN IF t.n = 0 THEN None ELSE
  LET n2 == NameLen(b, n1 + t.n) IN IF n2 = 0 THEN None ELSE
  LET rds == RdatasAt(b, n1 + t.n + n2)
      tr == Triplet(val)
  IN IF ~rds.ok \/ ~tr.ok THEN None
     ELSE [ok |-> TRUE, kind |-> KRRset, name |-> RevName(SubSeq(b, 1, n1)), rrtype |-> t.v,
           bailiwick |-> RevName(SubSeq(b, n1 + t.n + 1, n1 + t.n + n2)), rdatas |-> rds.l, seen |-> Seen(tr)]
DecRdata(b, val) ==
  IF Len(b) < 2 THEN None ELSE
  LET body == Take(b, Len(b) - 2)
      dl == b[Len(b) - 1] + 256 * b[Len(b)]
  IN IF dl > Len(body) THEN None ELSE
  LET t == TypeAt(body, dl) IN IF t.n = 0 THEN None ELSE
  LET n == NameLen(body, dl + t.n) IN IF n = 0 THEN None ELSE
  LET sl == Drop(body, dl + t.n + n)
      tr == Triplet(val)
  IN IF ~tr.ok \/ Len(sl) + dl > 65535 THEN None
     ELSE [ok |-> TRUE, kind |-> KRdata, rdatas |-> <<sl \o Take(body, dl)>>, rrtype |-> t.v, data |-> Take(body, dl),
           name |-> RevName(SubSeq(body, dl + t.n + 1, dl + t.n + n)), seen |-> Seen(tr)]
DecVersion(b, val) ==
  IF Len(b) # 1 THEN None ELSE
  LET v == VarAt(val, 0, 5, 2) IN
  IF v.n = 0 \/ v.n # Len(val) THEN None ELSE [ok |-> TRUE, kind |-> KVersion, vkind |-> b[1], version |-> v.v]
Decode(key, val) ==
  IF key = <<>> THEN None ELSE
  LET b == Tail(key) k == key[1] IN
  CASE k = KRRset -> DecRRset(b, val)
    [] k = KRdata -> DecRdata(b, val)
    [] k = KRRsetName -> IF IsName(b) THEN [ok |-> TRUE, kind |-> k, name |-> b, index |-> val] ELSE None
    [] k = KRdataName -> IF IsName(b) THEN [ok |-> TRUE, kind |-> k, name |-> RevName(b), index |-> val] ELSE None
    [] k = KSource -> [ok |-> TRUE, kind |-> k, text |-> b]
    [] k = KTimeRange -> LET p == Pair(val) IN IF p.ok THEN [ok |-> TRUE, kind |-> k, seen |-> p] ELSE None
    [] k = KVersion -> DecVersion(b, val)
    [] OTHER -> None

(* ---- encoding: how such records are stored ---- *)
RECURSIVE EncRdatas(_)
EncRdatas(l) == IF l = <<>> THEN <<>> ELSE TypeVar(Len(Head(l))) \o Head(l) \o EncRdatas(Tail(l))
Le16(n) == <<n % 256, n \div 256>>
(* r: [kind, ...] with raw first/last/count; an rdata record is sliced after `slice` bytes *)
EncKey(r) ==
  <<r.kind>> \o
  (CASE r.kind = KRRset -> RevName(r.name) \o TypeVar(r.rrtype) \o RevName(r.bailiwick) \o EncRdatas(r.rdatas)
     [] r.kind = KRdata -> LET d == Drop(r.rdatas[1], r.slice) IN
          d \o TypeVar(r.rrtype) \o RevName(r.name) \o Take(r.rdatas[1], r.slice) \o Le16(Len(d))
     [] r.kind = KRRsetName -> r.name
     [] r.kind = KRdataName -> RevName(r.name)
     [] r.kind = KSource -> r.text
     [] r.kind = KTimeRange -> <<>>
     [] r.kind = KVersion -> <<r.vkind>>)
EncVal(r) ==
  CASE r.kind \in {KRRset, KRdata} -> PackTriplet(r.first, r.last, r.count)
    [] r.kind \in {KRRsetName, KRdataName} -> r.index
    [] r.kind = KSource -> <<>>
    [] r.kind = KTimeRange -> PackPair(r.first, r.last)
    [] r.kind = KVersion -> V!Encode(r.version)

(* ---- type indexes ---- *)
(* the types an index lists: [ok, all, types]; `all`: no index, nothing excluded *)
RECURSIVE BitmapOk(_, _, _)
BitmapOk(ix, p, lo) ==
  IF p = Len(ix) THEN TRUE
  ELSE /\ Len(ix) - p >= 2
       /\ ix[p + 1] >= lo
       /\ ix[p + 2] >= 1
       /\ Len(ix) - p - 2 >= ix[p + 2]
       /\ BitmapOk(ix, p + 2 + ix[p + 2], ix[p + 1] + 1)
(* offsets of the blocks of a bitmap index *)
RECURSIVE Blocks(_, _)
Blocks(ix, p) == IF p >= Len(ix) THEN {} ELSE {p} \cup Blocks(ix, p + 2 + ix[p + 2])
BlockTypes(ix, p) ==
  {k \in 0..(8 * ix[p + 2] - 1) : (ix[p + 3 + k \div 8] \div Pow2[7 - (k % 8)]) % 2 = 1}
(* blocks of more than 32 bytes reach past their window and are not well-formed *)
IndexOk(ix) == Len(ix) <= 2 \/ (BitmapOk(ix, 0, 0) /\ \A p \in Blocks(ix, 0) : ix[p + 2] <= 32)
IndexTypes(ix) ==
  CASE Len(ix) = 0 -> {}
    [] Len(ix) = 1 -> {ix[1]}
    [] Len(ix) = 2 -> {ix[1] + 256 * ix[2]}
    [] OTHER -> UNION {{256 * ix[p + 1] + k : k \in BlockTypes(ix, p)} : p \in Blocks(ix, 0)}
NameBearing == {2, 5, 6, 12, 15, 33, 39, 64, 65}
(* is a record of this type said to exist? *)
IndexHas(kind, ix, t) ==
  IF ix = <<>> THEN kind = KRRsetName \/ t \in NameBearing
  ELSE t \in IndexTypes(ix)

(* text is reported as a C string *)
CStr(t) == LET Z == {k \in 1..Len(t) : t[k] = 0} IN IF Z = {} THEN t ELSE Take(t, (CHOOSE k \in Z : \A j \in Z : k <= j) - 1)
(* ---- what the accessors of an entry report: <<>> for absent fields ---- *)
Obs(e) ==
  LET k == e.kind hasrr == k \in {KRRset, KRdata} IN
  [ty |-> k,
   rrname |-> IF k \in {KRRset, KRRsetName, KRdata} THEN <<e.name>> ELSE <<>>,
   bw |-> IF k = KRRset THEN <<e.bailiwick>> ELSE <<>>,
   rrtype |-> IF hasrr THEN <<e.rrtype>> ELSE <<>>,
   num |-> IF hasrr THEN <<Len(e.rdatas)>> ELSE <<>>,
   rds |-> IF hasrr THEN e.rdatas ELSE <<>>,
   past |-> 0,
   rdname |-> IF k = KRdataName THEN <<e.name>> ELSE <<>>,
   first |-> IF hasrr \/ k = KTimeRange THEN <<e.seen.first>> ELSE <<>>,
   last |-> IF hasrr \/ k = KTimeRange THEN <<e.seen.last>> ELSE <<>>,
   count |-> IF hasrr THEN <<e.seen.count>> ELSE <<>>,
   src |-> IF k = KSource THEN <<CStr(e.text)>> ELSE <<>>,
   ver |-> IF k = KVersion THEN <<e.version>> ELSE <<>>,
   vty |-> IF k = KVersion THEN <<e.vkind>> ELSE <<>>]
=============================================================================
