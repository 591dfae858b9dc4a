------------------------------- MODULE Format -------------------------------
(* How an entry is rendered as text (exactly) and as JSON (what it must read *)
(* back as).  The presentation of rdata values belongs to libwdns and is     *)
(* taken as given (rp: one byte string per rdata).                           *)
EXTENDS Record, Lit

(* ---- numbers and dates ---- *)
(* quotient and remainder of a word by d < 32768 *)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(w, d, k, rem, q) ==
  IF k > Len(w) THEN [q |-> q, r |-> rem]
  ELSE LET x == rem * 65536 + w[k] IN DivAt(w, d, k + 1, x % d, Append(q, x \div d))
WDiv(w, d) == DivAt(w, d, 1, 0, <<>>)
RECURSIVE DecW(_)
DecW(w) == LET x == WDiv(w, 10) IN IF WIsZero(x.q) THEN <<48 + x.r>> ELSE Append(DecW(x.q), 48 + x.r)
Dec(n) == DecW(OfNat(2, n))
Dig2(n) == <<48 + n \div 10, 48 + (n % 10)>>
Pad4(s) == IF Len(s) >= 4 THEN s ELSE [k \in 1..(4 - Len(s)) |-> 48] \o s
(* days since 0000-03-01 in 400-year eras (146097 = 189 * 773 days) *)
Era == 146097
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
(* civil date of a day count since 1970-01-01, given as a word *)
Civil(days) ==
  LET z == WAdd(days, OfNat(4, 719468))
      a == WDiv(z, 189)   b == WDiv(a.q, 773)
      doe == b.r * 189 + a.r
      era == b.q
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [era |-> era, y |-> yoe + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
(* broken-down time of seconds since the epoch; has no date past year 2147485547 *)
Time(t) ==
  LET a == WDiv(t, 675)   b == WDiv(a.q, 128)
      sod == b.r * 675 + a.r
      c == Civil(b.q)
  IN [dated |-> FitsNat(c.era) /\ ToNat(c.era) < 5368709,
      year |-> IF FitsNat(c.era) /\ ToNat(c.era) < 5368709 THEN 400 * ToNat(c.era) + c.y ELSE 0,
      mon |-> c.m, day |-> c.d, h |-> sod \div 3600, mi |-> (sod \div 60) % 60, s |-> sod % 60]
(* text form: "2013-09-25 15:37:03 -0000" *)
DateText(t) ==
  LET x == Time(t) IN
  IF ~x.dated THEN DecW(t)
  ELSE Dec(x.year) \o <<45>> \o Dig2(x.mon) \o <<45>> \o Dig2(x.day) \o <<32>>
       \o Dig2(x.h) \o <<58>> \o Dig2(x.mi) \o <<58>> \o Dig2(x.s) \o L(" -0000")
(* RFC 3339 form, for the years it has one *)
HasRfc3339(t) == Time(t).dated /\ Time(t).year <= 9999
Rfc3339(t) ==
  LET x == Time(t) IN
  Pad4(Dec(x.year)) \o <<45>> \o Dig2(x.mon) \o <<45>> \o Dig2(x.day) \o <<84>>
       \o Dig2(x.h) \o <<58>> \o Dig2(x.mi) \o <<58>> \o Dig2(x.s) \o <<90>>
TextTime(t, rfc) == IF rfc THEN (IF HasRfc3339(t) THEN Rfc3339(t) ELSE DecW(t)) ELSE DateText(t)

(* ---- names and types ---- *)
PresByte(c) == IF c = 46 \/ c = 92 THEN <<92, c>>
               ELSE IF c >= 33 /\ c <= 126 THEN <<c>>
               ELSE <<92, 48 + c \div 100, 48 + ((c \div 10) % 10), 48 + (c % 10)>>
PresName(n) ==
  IF Labels(n) = <<>> THEN <<46>>
  ELSE ConcatAll([k \in 1..Len(Labels(n)) |-> ConcatAll([j \in 1..Len(Labels(n)[k]) |-> PresByte(Labels(n)[k][j])]) \o <<46>>])
TypeNames ==
  (1 :> L("A")) @@ (2 :> L("NS")) @@ (3 :> L("MD")) @@ (4 :> L("MF")) @@ (5 :> L("CNAME")) @@ (6 :> L("SOA")) @@ (7 :> L("MB"))
  @@ (8 :> L("MG")) @@ (9 :> L("MR")) @@ (10 :> L("NULL")) @@ (11 :> L("WKS")) @@ (12 :> L("PTR")) @@ (13 :> L("HINFO"))
  @@ (14 :> L("MINFO")) @@ (15 :> L("MX")) @@ (16 :> L("TXT")) @@ (17 :> L("RP")) @@ (18 :> L("AFSDB")) @@ (24 :> L("SIG"))
  @@ (25 :> L("KEY")) @@ (28 :> L("AAAA")) @@ (29 :> L("LOC")) @@ (30 :> L("NXT")) @@ (33 :> L("SRV")) @@ (35 :> L("NAPTR"))
  @@ (36 :> L("KX")) @@ (37 :> L("CERT")) @@ (39 :> L("DNAME")) @@ (41 :> L("OPT")) @@ (43 :> L("DS")) @@ (44 :> L("SSHFP"))
  @@ (46 :> L("RRSIG")) @@ (47 :> L("NSEC")) @@ (48 :> L("DNSKEY")) @@ (49 :> L("DHCID")) @@ (50 :> L("NSEC3"))
  @@ (51 :> L("NSEC3PARAM")) @@ (52 :> L("TLSA")) @@ (59 :> L("CDS")) @@ (60 :> L("CDNSKEY")) @@ (61 :> L("OPENPGPKEY"))
  @@ (64 :> L("SVCB")) @@ (65 :> L("HTTPS")) @@ (99 :> L("SPF")) @@ (255 :> L("ANY")) @@ (256 :> L("URI")) @@ (257 :> L("CAA"))
  @@ (32769 :> L("DLV"))
TypeText(t) == IF t \in DOMAIN TypeNames THEN TypeNames[t] ELSE L("TYPE") \o Dec(t)
RECURSIVE SortedUp(_)
SortedUp(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedUp(S \ {m})
(* the list of types shown for a name record; a malformed index is shown as such *)
ShownTypes(ix) ==
  IF ~IndexOk(ix) THEN <<L("<failure>")>>
  ELSE LET s == SortedUp(IndexTypes(ix)) IN [k \in 1..Len(s) |-> TypeText(s[k])]
RECURSIVE Joined(_)
Joined(ss) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o <<32>> \o Joined(Tail(ss))
KindText(k) == CASE k = 0 -> L("rrset") [] k = 1 -> L("rrset_name") [] k = 2 -> L("rdata") [] k = 3 -> L("rdata_name")
                 [] k = 253 -> L("source_info") [] k = 254 -> L("time_range") [] k = 255 -> L("version") [] OTHER -> <<>>

(* ---- text ---- *)
RRLine(e, i, rp) == PresName(e.name) \o L(" IN ") \o TypeText(e.rrtype) \o <<32>> \o rp[i] \o <<10>>
Text(e, rp, zone, rfc) ==
  CASE e.kind = KRRset ->
         L(";;  bailiwick: ") \o PresName(e.bailiwick)
         \o L("\n;;      count: ") \o DecW(e.seen.count)
         \o (IF zone THEN L("\n;; first seen in zone file: ") ELSE L("\n;; first seen: ")) \o TextTime(e.seen.first, rfc)
         \o (IF zone THEN L("\n;;  last seen in zone file: ") ELSE L("\n;;  last seen: ")) \o TextTime(e.seen.last, rfc)
         \o <<10>> \o ConcatAll([i \in 1..Len(e.rdatas) |-> RRLine(e, i, rp)])
    [] e.kind = KRdata -> RRLine(e, 1, rp)
    [] e.kind = KRRsetName -> PresName(e.name) \o L(" RRtypes=[") \o Joined(ShownTypes(e.index)) \o L("] ") \o L(" ;; rrset name fwd\n")
    [] e.kind = KRdataName -> PresName(e.name) \o L(" RRtypes=[") \o Joined(ShownTypes(e.index)) \o L("] ") \o L(" ;; rdata name rev\n")
    [] e.kind = KTimeRange -> L(";; Earliest time_first: ") \o TextTime(e.seen.first, rfc)
                              \o L("\n;; Latest time_last: ") \o TextTime(e.seen.last, rfc) \o <<10>>
    [] e.kind = KSource -> L(";; source info: ") \o CStr(e.text) \o <<10>>
    [] e.kind = KVersion -> L(";; Version type ") \o (IF e.vkind \in Kinds THEN KindText(e.vkind) ELSE Dec(e.vkind))
                            \o L(": ") \o DecW(e.version) \o <<10>>

(* ---- JSON: what the object must read back as ---- *)
Str(s) == [t |-> "s", v |-> s]
Num(w) == [t |-> "n", v |-> DecW(w)]
Arr(l) == [t |-> "a", v |-> l]
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(bs) == [k \in 1..(2 * Len(bs)) |-> IF k % 2 = 1 THEN HexD(bs[(k + 1) \div 2] \div 16) ELSE HexD(bs[k \div 2] % 16)]
JTime(w, rfc) == IF rfc /\ HasRfc3339(w) THEN Str(Rfc3339(w)) ELSE Num(w)
Members(e, rp, zone, rfc, arr, raw) ==
  LET k == e.kind IN
  IF k \in {KRRset, KRdata} THEN
    {<<L("count"), Num(e.seen.count)>>,
     <<IF zone THEN L("zone_time_first") ELSE L("time_first"), JTime(e.seen.first, rfc)>>,
     <<IF zone THEN L("zone_time_last") ELSE L("time_last"), JTime(e.seen.last, rfc)>>,
     <<L("rrname"), Str(PresName(e.name))>>, <<L("rrtype"), Str(TypeText(e.rrtype))>>}
    \cup (IF k = KRRset
          THEN {<<L("bailiwick"), Str(PresName(e.bailiwick))>>,
                <<L("rdata"), Arr([i \in 1..Len(rp) |-> Str(rp[i])])>>}
               \cup (IF raw THEN {<<L("rdata_raw"), Arr([i \in 1..Len(rp) |-> Str(Hex(e.rdatas[i] \o TypeVar(e.rrtype)))])>>} ELSE {})
          ELSE {<<L("rdata"), IF arr THEN Arr(<<Str(rp[1])>>) ELSE Str(rp[1])>>}
               \cup (IF raw THEN {<<L("rdata_raw"), IF arr THEN Arr(<<Str(Hex(e.rdatas[1]))>>) ELSE Str(Hex(e.rdatas[1]))>>} ELSE {}))
  ELSE IF k \in {KRRsetName, KRdataName} THEN
    {<<IF k = KRRsetName THEN L("rrset_name") ELSE L("rdata_name"), Str(PresName(e.name))>>,
     <<L("rrtypes"), LET s == ShownTypes(e.index) IN Arr([i \in 1..Len(s) |-> Str(s[i])])>>}
  ELSE IF k = KTimeRange THEN {<<L("time_first"), JTime(e.seen.first, rfc)>>, <<L("time_last"), JTime(e.seen.last, rfc)>>}
  ELSE IF k = KSource THEN {<<L("source info"), Str(CStr(e.text))>>}
  ELSE {<<L("entry_type"), Str(IF e.vkind \in Kinds THEN KindText(e.vkind) ELSE L("unknown-") \o Dec(e.vkind))>>,
        <<L("version"), Num(e.version)>>}

(* ---- reading JSON back: positions are 1-based, 0 means "not that" ---- *)
RECURSIVE Ws(_, _)
Ws(b, p) == IF p > 0 /\ p <= Len(b) /\ b[p] \in {32, 9, 10, 13} THEN Ws(b, p + 1) ELSE p
At(b, p) == IF p >= 1 /\ p <= Len(b) THEN b[p] ELSE 256
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
Unesc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
              [] c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] OTHER -> 256
(* the rest of a string literal at p reads as s from its i-th byte on *)
RECURSIVE MChars(_, _, _, _)
MChars(b, p, s, i) ==
  LET c == At(b, p) IN
  IF c = 34 THEN (IF i = Len(s) + 1 THEN p + 1 ELSE 0)
  ELSE IF i > Len(s) \/ c < 32 \/ c = 256 THEN 0
  ELSE IF c # 92 THEN (IF c = s[i] THEN MChars(b, p + 1, s, i + 1) ELSE 0)
  ELSE IF At(b, p + 1) = 117
       THEN LET h == [j \in 1..4 |-> HexVal(At(b, p + 1 + j))] IN
            IF h[1] = 0 /\ h[2] = 0 /\ h[3] < 8 /\ h[4] < 16 /\ h[3] * 16 + h[4] = s[i] THEN MChars(b, p + 6, s, i + 1) ELSE 0
       ELSE IF Unesc(At(b, p + 1)) = s[i] THEN MChars(b, p + 2, s, i + 1) ELSE 0
MStr(b, p, s) == IF At(b, p) = 34 THEN MChars(b, p + 1, s, 1) ELSE 0
IsDig(c) == c >= 48 /\ c <= 57
MNum(b, p, d) == IF p > 0 /\ p + Len(d) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(d) - 1) = d
                    /\ ~IsDig(At(b, p + Len(d))) /\ At(b, p + Len(d)) \notin {46, 69, 101}
                 THEN p + Len(d) ELSE 0
RECURSIVE MVal(_, _, _), MElems(_, _, _, _)
MVal(b, p, v) == CASE v.t = "s" -> MStr(b, p, v.v)
                   [] v.t = "n" -> MNum(b, p, v.v)
                   [] v.t = "a" -> IF At(b, p) # 91 THEN 0
                                   ELSE IF v.v = <<>> THEN (LET q == Ws(b, p + 1) IN IF At(b, q) = 93 THEN q + 1 ELSE 0)
                                   ELSE MElems(b, Ws(b, p + 1), v.v, 1)
MElems(b, p, l, i) ==
  LET q == Ws(b, MVal(b, p, l[i])) IN
  IF q = 0 THEN 0
  ELSE IF i = Len(l) THEN (IF At(b, q) = 93 THEN q + 1 ELSE 0)
  ELSE IF At(b, q) = 44 THEN MElems(b, Ws(b, q + 1), l, i + 1) ELSE 0
RECURSIVE MMembers(_, _, _)
MMembers(b, p, M) ==
  LET K == {m \in M : MStr(b, p, m[1]) # 0} IN
  IF K = {} THEN 0
  ELSE LET m == CHOOSE x \in K : TRUE
           c == Ws(b, MStr(b, p, m[1])) IN
       IF At(b, c) # 58 THEN 0
       ELSE LET q == Ws(b, MVal(b, Ws(b, c + 1), m[2])) IN
            IF q = 0 THEN 0
            ELSE IF M = {m} THEN (IF At(b, q) = 125 THEN q + 1 ELSE 0)
            ELSE IF At(b, q) = 44 THEN MMembers(b, Ws(b, q + 1), M \ {m}) ELSE 0
ReadsAs(b, M) == At(b, Ws(b, 1)) = 123 /\ Ws(b, MMembers(b, Ws(b, Ws(b, 1) + 1), M)) = Len(b) + 1
=============================================================================
