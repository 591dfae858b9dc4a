------------------------------- MODULE ToolMC -------------------------------
(* What reading a lookup command line guarantees: strict bounds select       *)
(* exactly the records lying wholly inside them; every form of a time reads  *)
(* back as that time; the spellings of the same options are the same.        *)
EXTENDS Tool
CONSTANTS TMax, NTok, Step
VARIABLES ph, b, d, as
Wn(n) == OfNat(4, n)
Init == \/ ph = "strict" /\ b \in [1..4 -> 0..TMax] /\ d = <<0>> /\ as = <<>>
        \/ ph = "time" /\ b = <<0, 0, 0, 0>> /\ d \in {<<x>> : x \in 0..Step} /\ as = <<>>
        \/ ph = "opts" /\ b = <<0, 0, 0, 0>> /\ d = <<0>> /\ as = <<>>
Toks == {<<45, 99>>, <<45, 99, 106>>, <<45, 79, 53>>, <<45, 79>>, <<45, 106, 79>>, <<53>>, <<120>>, <<45, 45>>, <<45>>, <<45, 122>>}
Next == /\ ph = "opts" /\ Len(as) < NTok /\ \E t \in Toks : as' = Append(as, t)
        /\ UNCHANGED <<ph, b, d>>
(* b: fa la lb fb *)
Q1 == [QInit(QRaw) EXCEPT !.fa = Bound(StrictLow(Wn(b[1]), Wn(b[2]))), !.la = Bound(Wn(b[2])),
                          !.lb = Bound(StrictHigh(Wn(b[3]), Wn(b[4]))), !.fb = Bound(Wn(b[4]))]
Strict == ph = "strict" =>
  \A f \in 0..(TMax + 1), l \in 0..(TMax + 1) : f <= l =>
    (FenceOk(Q1, [first |-> Wn(f), last |-> Wn(l)])
     <=> (f >= b[1] /\ f >= b[2] /\ (b[3] > 0 => l <= b[3]) /\ (b[4] > 0 => l <= b[4])))
(* times: day d of the calendar at odd moments *)
Tm(k) == WAdd(WMul(WMul(OfNat(4, d[1] * 37), 675), 128), OfNat(4, (d[1] * 7919 + k) % 86400))
Nw == <<0, 0, 65535, 65535>>
Digs(w) == DecW(w)
TimesInv == ph = "time" => \A k \in {0, 1} :
  LET t == Tm(k) z == Rfc3339(t)
      ago == WSub(Nw, t)
      day == SubSeq(z, 1, 10) IN
  ~WIsZero(t) =>
  /\ TimeOf(z, Nw) = t
  /\ TimeOf(SubSeq(z, 1, 19), Nw) = t
  /\ TimeOf(SubSeq(z, 1, 10) \o <<32>> \o SubSeq(z, 12, 19), Nw) = t
  /\ TimeOf(Digs(t), Nw) = t
  /\ WLe(TimeOf(day, Nw), t) /\ WLt(t, WAdd(TimeOf(day, Nw), OfNat(4, 86400)))
  /\ WLt(t, Nw) => TimeOf(<<45>> \o Digs(ago), Nw) = t
  /\ WLt(t, Nw) => TimeOf(Digs(ago) \o <<115>>, Nw) = t
  /\ WLt(t, Nw) => LET w == WDiv(ago, 675)  x == WDiv(w.q, 128) secs == x.r * 675 + w.r IN      \* whole days and seconds
       (~WIsZero(x.q) /\ secs > 0) =>
          /\ TimeOf(Digs(x.q) \o <<100>> \o Dec(secs) \o <<83>>, Nw) = t
          /\ TimeOf(Dec(secs) \o <<115>> \o Digs(x.q) \o <<68>>, Nw) = t
          /\ secs > 3600 => TimeOf(Digs(x.q) \o <<68>> \o Dec(secs \div 3600) \o <<104>> \o (IF (secs % 3600) \div 60 > 0 THEN Dec((secs % 3600) \div 60) \o <<77>> ELSE <<>>)
                                   \o (IF secs % 60 > 0 THEN Dec(secs % 60) ELSE <<>>), Nw) = t
(* options *)
R == Get(G0, as)
Split(xs) == \* the same, one option per token and no attached arguments
  LET F[i \in 0..Len(xs)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o
        (CASE xs[i] = <<45, 99, 106>> -> <<<<45, 99>>, <<45, 106>>>> [] xs[i] = <<45, 79, 53>> -> <<<<45, 79>>, <<53>>>>
           [] xs[i] = <<45, 106, 79>> -> <<<<45, 106>>, <<45, 79>>>> [] OTHER -> <<xs[i]>>) IN F[Len(xs)]
(* tokens that are an option's argument or follow "--" are not to be taken apart *)
RECURSIVE Safe(_)
Safe(xs) == xs = <<>> \/ (xs[1] # <<45, 45>> /\ (IF xs[1] \in {<<45, 79>>, <<45, 106, 79>>} THEN Len(xs) > 1 /\ xs[2] \in {<<53>>, <<120>>, <<45>>} /\ Safe(SubSeq(xs, 3, Len(xs))) ELSE Safe(Tail(xs))))
Spellings == (ph = "opts" /\ Safe(as)) => Get(G0, Split(as)) = R
(* nothing is lost: every token is an option, an argument or an operand *)
Size == R.ok => (\A k \in 1..Len(R.rest) : \E j \in 1..Len(as) : as[j] = R.rest[k])
          /\ \A k \in 1..Len(R.opts) : (R.opts[k][1] \in WithArg) <=> (R.opts[k][2] # <<>> \/ \E j \in 1..Len(as) : as[j] = <<>>)
Dashes == ph = "opts" /\ R.ok => \A i \in 1..Len(as) :
   (as[i] = <<45, 45>> /\ (\A j \in 1..(i - 1) : as[j] \notin {<<45, 45>>, <<45, 79>>, <<45, 106, 79>>})) =>
      Len(R.rest) >= Len(as) - i /\ SubSeq(R.rest, Len(R.rest) - (Len(as) - i) + 1, Len(R.rest)) = SubSeq(as, i + 1, Len(as))
=============================================================================
