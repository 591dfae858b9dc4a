-------------------------------- MODULE Tool --------------------------------
(* The lookup and dump commands (C25, C26): from the arguments to the bytes  *)
(* printed.  A command line is read as options and operands; it is refused,  *)
(* or it stands for one query (Query) whose answer is printed entry by entry *)
(* in the chosen rendering (Format).                                         *)
EXTENDS Integers, Query, Format
A == INSTANCE Argv

(* ------------------------------------------------------ time expressions *)
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDig(s[i])
RECURSIVE MulAdd(_, _, _)      \* <<carry, w * b + d>>, b below 2^15
MulAdd(w, b, d) == IF w = <<>> THEN <<d, <<>>>> ELSE
  LET z == MulAdd(Tail(w), b, d)  x == Head(w) * b + z[1] IN <<x \div 65536, <<x % 65536>> \o z[2]>>
WMul(w, b) == MulAdd(w, b, 0)[2]
RECURSIVE NumW(_, _)
NumW(s, w) == IF s = <<>> THEN w ELSE NumW(Tail(s), MulAdd(w, 10, Head(s) - 48)[2])
Wd(s) == NumW(s, Zeros(4))
RECURSIVE NumN(_, _)
NumN(s, n) == IF s = <<>> THEN n ELSE NumN(Tail(s), 10 * n + Head(s) - 48)
Num2(s, i) == NumN(SubSeq(s, i, i + 1), 0)
DateShape(s) == Len(s) >= 10 /\ Digits(SubSeq(s, 1, 4)) /\ s[5] = 45 /\ Digits(SubSeq(s, 6, 7)) /\ s[8] = 45 /\ Digits(SubSeq(s, 9, 10))
DayMax(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
DateOk(s) == LET y == NumN(SubSeq(s, 1, 4), 0) m == Num2(s, 6) d == Num2(s, 9) IN m \in 1..12 /\ d \in 1..DayMax(y, m)
Clock(s) == LET r == SubSeq(s, 11, Len(s)) IN      \* "", " hh:mm:ss", "Thh:mm:ss", "Thh:mm:ssZ"
  \/ r = <<>>
  \/ /\ Len(r) = 9 \/ (Len(r) = 10 /\ r[10] = 90 /\ r[1] = 84)
     /\ r[1] \in {32, 84} /\ r[4] = 58 /\ r[7] = 58
     /\ Digits(SubSeq(r, 2, 3) \o SubSeq(r, 5, 6) \o SubSeq(r, 8, 9))
     /\ Num2(r, 2) < 24 /\ Num2(r, 5) < 60 /\ Num2(r, 8) < 60
Iso(s) == DateShape(s) /\ DateOk(s) /\ Clock(s)
Days(y0, m, d) ==      \* since 0000-03-01
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      yoe == y % 400
      mp == IF m > 2 THEN m - 3 ELSE m + 9
  IN (y \div 400) * Era + yoe * 365 + yoe \div 4 - yoe \div 100 + (153 * mp + 2) \div 5 + d - 1
IsoTime(s) ==
  LET days == Days(NumN(SubSeq(s, 1, 4), 0), Num2(s, 6), Num2(s, 9)) - 719468
      sod == IF Len(s) = 10 THEN 0 ELSE Num2(s, 12) * 3600 + Num2(s, 15) * 60 + Num2(s, 18)
  IN IF days < 0 THEN Zeros(4) ELSE WAdd(WMul(WMul(OfNat(4, days), 675), 128), OfNat(4, sod))
Unit(c) == CASE c \in {87, 119} -> 604800 [] c \in {68, 100} -> 86400 [] c \in {72, 104} -> 3600 [] c \in {77, 109} -> 60 [] c \in {83, 115} -> 1 [] OTHER -> 0
Scale(w, u) == CASE u = 604800 -> WMul(WMul(w, 4725), 128) [] u = 86400 -> WMul(WMul(w, 675), 128) [] OTHER -> WMul(w, u)
RECURSIVE LeadDigits(_)
LeadDigits(s) == IF s = <<>> \/ ~IsDig(Head(s)) THEN 0 ELSE 1 + LeadDigits(Tail(s))
None4 == Zeros(4)       \* the time that is no time
RECURSIVE AgoOf(_)      \* "10w3d4h": <<>> or <<seconds>>; a number alone at the end counts seconds
AgoOf(s) ==
  IF s = <<>> THEN <<None4>> ELSE
  LET n == LeadDigits(s) IN
  IF n = 0 \/ WIsZero(Wd(SubSeq(s, 1, n))) THEN <<>>
  ELSE LET u == IF n = Len(s) THEN 1 ELSE Unit(s[n + 1])
           r == AgoOf(SubSeq(s, n + 2, Len(s))) IN
       IF u = 0 \/ r = <<>> THEN <<>> ELSE <<WAdd(Scale(Wd(SubSeq(s, 1, n)), u), r[1])>>
Before(now, x) == IF WLt(x, now) THEN WSub(now, x) ELSE None4
(* numbers of up to 10 digits are all that is claimed *)
TimeOf(s, now) ==
  IF Iso(s) THEN IsoTime(s)
  ELSE IF Digits(s) THEN Wd(s)
  ELSE IF Len(s) > 1 /\ s[1] = 45 /\ Digits(Tail(s)) THEN Before(now, Wd(Tail(s)))
  ELSE LET r == AgoOf(s) IN IF s = <<>> \/ r = <<>> THEN None4 ELSE Before(now, r[1])

(* ------------------------------------------- options and operands (getopt) *)
WithArg == {97, 65, 98, 66, 105, 116, 79}          \* a A b B i t O
NoArg == {99, 67, 110, 106, 74, 82, 115, 117}      \* c C n j J R s u
G0 == [ok |-> TRUE, opts |-> <<>>, rest |-> <<>>]
RECURSIVE Cluster(_, _, _), Get(_, _)
(* letters of one token; need: an option whose argument is the next token *)
Cluster(s, t, i) ==
  IF i > Len(t) THEN <<s, 0>>
  ELSE IF t[i] \in NoArg THEN Cluster([s EXCEPT !.opts = Append(@, <<t[i], <<>>>>)], t, i + 1)
  ELSE IF t[i] \in WithArg
       THEN IF i < Len(t) THEN <<[s EXCEPT !.opts = Append(@, <<t[i], SubSeq(t, i + 1, Len(t))>>)], 0>> ELSE <<s, t[i]>>
  ELSE <<[s EXCEPT !.ok = FALSE], 0>>
Get(s, as) ==
  IF as = <<>> \/ ~s.ok THEN s
  ELSE LET t == Head(as) IN
    IF t = <<45, 45>> THEN [s EXCEPT !.rest = @ \o Tail(as)]
    ELSE IF Len(t) < 2 \/ t[1] # 45 THEN Get([s EXCEPT !.rest = Append(@, t)], Tail(as))
    ELSE LET c == Cluster(s, t, 2) IN
         IF c[2] = 0 THEN Get(c[1], Tail(as))
         ELSE IF Len(as) = 1 THEN [s EXCEPT !.ok = FALSE]
         ELSE Get([c[1] EXCEPT !.opts = Append(@, <<c[2], as[2]>>)], SubSeq(as, 3, Len(as)))
Given(g, o) == \E k \in 1..Len(g.opts) : g.opts[k][1] = o
Arg(g, o) == LET S == {k \in 1..Len(g.opts) : g.opts[k][1] = o} IN g.opts[CHOOSE k \in S : \A j \in S : j <= k][2]
Args(g, o) == {g.opts[k][2] : k \in {j \in 1..Len(g.opts) : g.opts[j][1] = o}}
CountOf(g, o) == Cardinality({k \in 1..Len(g.opts) : g.opts[k][1] = o})
Positive(s) == Digits(s) /\ Len(s) <= 6 /\ ~WIsZero(Wd(s))

(* ---------------------------------------------------- the lookup command *)
(* c.mean: what operand texts mean, by role; c.fname, c.setf: "no" unset, "ok", "missing" *)
Mean(c, tok, role) == LET S == {k \in 1..Len(c.mean) : c.mean[k].tok = tok /\ c.mean[k].role = role} IN
                      IF S = {} THEN [k |-> "bad"] ELSE c.mean[CHOOSE k \in S : TRUE].m
Form(r) ==      \* the query type, or -1
  LET n == Len(r) IN
  IF n = 0 THEN -1
  ELSE CASE r[1] = L("rrset") -> IF n \in 2..4 /\ ~\E i \in 1..Len(r[2]) : r[2][i] = 47 THEN QRRset ELSE -1
         [] r[1] = L("rdata") /\ n >= 2 -> (CASE r[2] = L("ip") /\ n = 3 -> QIp
                                             [] r[2] = L("raw") /\ n \in 3..4 -> QRaw
                                             [] r[2] = L("name") /\ n \in 3..4 -> QName
                                             [] OTHER -> -1)
         [] r[1] = L("version") -> IF n <= 2 THEN QVersion ELSE -1
         [] r[1] = L("time_range") -> IF n = 1 THEN QTime ELSE -1
         [] OTHER -> -1
(* the bounds in force: strict mode makes every bound apply to both times *)
StrictLow(fa, la) == IF WLt(fa, la) THEN la ELSE fa
StrictHigh(lb, fb) == IF WIsZero(fb) THEN lb ELSE IF WIsZero(lb) THEN fb ELSE WMin(lb, fb)
Set1(s, op, m) == LET r == Set(s.q, [op |-> op, m |-> m]) IN [ok |-> s.ok /\ r.ok, q |-> r.q]
Null == [k |-> "null"]
Bound(w) == IF WIsZero(w) THEN <<>> ELSE <<w>>
TimeArg(c, g, o) == IF Given(g, o) THEN TimeOf(Arg(g, o), c.now) ELSE None4
Lookup(c) ==
  LET g == Get(G0, c.args)
      f == Form(g.rest)
      r == g.rest
      n == Len(r)
      has(o) == Given(g, o)
      json == has(106) \/ has(74)
      meta == f \in {QVersion, QTime}
      timesOk == \A o \in {97, 65, 98, 66} : \A a \in Args(g, o) : ~WIsZero(TimeOf(a, c.now))
      numsOk == \A o \in {105, 116, 79} : \A a \in Args(g, o) : Positive(a)
      refused == \/ ~g.ok \/ f = -1 \/ ~timesOk \/ ~numsOk
                 \/ (meta /\ (has(79) \/ has(82)))
                 \/ (has(110) /\ (json \/ has(82)))
                 \/ (has(106) /\ has(74))
                 \/ (has(82) /\ ~json)
                 \/ (c.fname = "no") = (c.setf = "no")
                 \/ (c.fname # "no" /\ (has(117) \/ c.fname = "missing"))
      q0 == [ok |-> TRUE, q |-> [QInit(f) EXCEPT !.case = has(67)]]
      q1 == CASE f = QRRset -> Set1(Set1(Set1(q0, "data", Mean(c, r[2], "data")), "rr", IF n >= 3 THEN Mean(c, r[3], "rr") ELSE Null),
                                    "bw", IF n >= 4 THEN Mean(c, r[4], "bw") ELSE Null)
              [] f \in {QIp, QRaw, QName} -> (LET d == Set1(q0, "data", Mean(c, r[3], "data")) IN IF n = 4 THEN Set1(d, "rr", Mean(c, r[4], "rr")) ELSE d)
              [] f = QVersion -> Set1(q0, "data", IF n = 2 THEN Mean(c, r[2], "data") ELSE Null)
              [] OTHER -> q0
      fa == TimeArg(c, g, 97) la == TimeArg(c, g, 65) lb == TimeArg(c, g, 98) fb == TimeArg(c, g, 66)
      strict == has(99)
      q2 == IF meta THEN q1.q
            ELSE [q1.q EXCEPT !.fa = Bound(IF strict THEN StrictLow(fa, la) ELSE fa), !.la = Bound(la),
                              !.lb = Bound(IF strict THEN StrictHigh(lb, fb) ELSE lb), !.fb = Bound(fb)]
  IN IF refused THEN [ok |-> FALSE]
     ELSE [ok |-> q1.ok, q |-> [q2 EXCEPT !.agg = ~has(117), !.off = IF has(79) THEN Wd(Arg(g, 79)) ELSE None4],
           json |-> json, rfc |-> has(74), raw |-> has(82), quiet |-> has(110),
           stats |-> CountOf(g, 115), every |-> IF has(105) THEN NumN(Arg(g, 105), 0) ELSE 0,
           limit |-> IF has(116) THEN NumN(Arg(g, 116), 0) ELSE 0]

(* ------------------------------------------------------- printed entries *)
(* tab: the presentation of rdata values, <<[t, d, s]>> *)
Pres(tab, t, d) == tab[CHOOSE k \in 1..Len(tab) : tab[k].t = t /\ tab[k].d = d].s
PresAll(tab, t, ds) == [k \in 1..Len(ds) |-> Pres(tab, t, ds[k])] \o <<>>
(* an observation (Query) as an entry to be rendered (Format) *)
AsEntry(x) == [kind |-> x.ty, name |-> x.n, rrtype |-> x.t, bailiwick |-> x.b, rdatas |-> x.r,
               seen |-> [first |-> x.f, last |-> x.l, count |-> x.c],
               vkind |-> IF x.ty = KVersion THEN x.x[1] ELSE 0, version |-> IF x.ty = KVersion THEN x.x[2] ELSE <<>>,
               text |-> IF x.ty = KSource THEN x.x[1] ELSE <<>>]
NextLf(b, p) == LET S == {k \in p..Len(b) : b[k] = 10} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
(* where e printed at p ends, or 0; tail: what follows each text entry *)
PrintedJson(b, p, e, tab, rfc, raw) ==
  LET q == NextLf(b, p) IN
  IF q = 0 THEN 0 ELSE IF ReadsAs(SubSeq(b, p, q - 1), Members(e, PresAll(tab, e.rrtype, e.rdatas), FALSE, rfc, FALSE, raw)) THEN q + 1 ELSE 0
PrintedText(b, p, e, tab, tail) ==
  LET s == Text(e, PresAll(tab, e.rrtype, e.rdatas), FALSE, FALSE) \o tail IN
  IF p + Len(s) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(s) - 1) = s THEN p + Len(s) ELSE 0

(* ------------------------------------------------------ the dump command *)
Opt(sh, lo) == [sh |-> sh, lo |-> lo, role |-> "opt", ty |-> "bool", arr |-> 0, must |-> 0]
OneOf == [sh |-> 0, lo |-> <<>>, role |-> "xor", ty |-> "none", arr |-> 0, must |-> 0]
DumpTable == <<Opt(106, L("json")), Opt(82, L("raw")), Opt(114, L("rrset_full")), OneOf, Opt(100, L("rdata_full")), OneOf, Opt(0, L("rrset_names")),
               OneOf, Opt(0, L("rdata_names")), OneOf, Opt(116, L("time_range")), OneOf, Opt(118, L("version_entries")), OneOf,
               Opt(115, L("source_info_entries")),
               [sh |-> 0, lo |-> <<>>, role |-> "mand", ty |-> "string", arr |-> 0, must |-> 0]>>
DumpKind == (3 :> KRRset) @@ (5 :> KRdata) @@ (7 :> KRRsetName) @@ (9 :> KRdataName) @@ (11 :> KTimeRange) @@ (13 :> KVersion) @@ (15 :> KSource)
DumpCfg == [close |-> 1, toggle |-> 0, multi |-> 1, env |-> "none", envs |-> <<>>, files |-> <<>>]
(* c.path: the file there is; any other cannot be opened *)
Dump(c) ==
  LET r == A!Parse(DumpTable, DumpCfg, c.args)
      on(e) == r.used[e] /\ A!Held(Zeros(4), r.val[e]) # Zeros(4)
      ks == {k \in DOMAIN DumpKind : r.used[k]}
      vague == r.vague \/ \E e \in DOMAIN DumpTable : r.used[e] /\ r.val[e] # <<>> /\ e # Len(DumpTable) /\ ~on(e)   \* "--json=no" and the like
  IN IF ~r.ok THEN [ok |-> FALSE, vague |-> r.vague]
     ELSE LET k == DumpKind[CHOOSE x \in ks : TRUE] IN
          [ok |-> (on(2) => on(1) /\ k \in {KRRset, KRdata}) /\ r.val[Len(DumpTable)] = <<c.path>>, vague |-> vague,
           kind |-> k, json |-> on(1), raw |-> on(2)]
=============================================================================
