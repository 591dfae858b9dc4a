------------------------------- MODULE FenceMC -------------------------------
(* Time bounds on a set of files.  The answer a user is promised is worked   *)
(* out over everything the files hold of a record (Answer); the lookup       *)
(* instead sets aside files by their advertised time range and combines      *)
(* what remains in stages (Stages).  Every distribution of a record over     *)
(* the files, with every advertised range that is true of its file, and      *)
(* every combination of bounds: both must yield the same.                    *)
EXTENDS Query
CONSTANTS NFiles, T, FenceT
VARIABLES held, rng, fence, agg, off
vars == <<held, rng, fence, agg, off>>
Times2 == {<<a, b>> : a \in T, b \in T}
Spans == {s \in Times2 : s[1] <= s[2]}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
W(n) == <<n>>
True(f, r) == IF r = <<>> THEN TRUE ELSE IF held[f] = <<>> THEN r[1][1] = r[1][2]
              ELSE r[1][1] <= held[f][1][1] /\ held[f][1][2] <= r[1][2]
(* a file's own range is a bound on what it holds; ranges differ only in reach *)
Init == /\ held \in [1..NFiles -> Opt(Spans)] /\ \E f \in 1..NFiles : held[f] # <<>>
        /\ rng = <<>> /\ fence = <<>> /\ agg = TRUE /\ off = 0
Advertise == rng = <<>> /\ rng' \in [1..NFiles -> Opt(Spans)] /\ (\A f \in 1..NFiles : True(f, rng'[f]))
             /\ UNCHANGED <<held, fence, agg, off>>
Ask == rng # <<>> /\ fence = <<>>
       /\ fence' \in [1..4 -> Opt(FenceT)] /\ agg' \in BOOLEAN /\ off' \in {0, 1}
       /\ UNCHANGED <<held, rng>>
Next == Advertise \/ Ask
Spec == Init /\ [][Next]_vars
Nm == <<1, 97, 0>>
HeldBy == SelectSeq([f \in 1..NFiles |-> f], LAMBDA f : held[f] # <<>>)
Db == <<[key |-> <<0>>, ok |-> TRUE, kind |-> KRRset, name |-> Nm, lab |-> <<<<97>>>>, rrtype |-> 1, rds |-> <<>>, bw |-> <<0>>, data |-> <<>>, tgt |-> <<>>,
         per |-> [k \in 1..Len(HeldBy) |-> [f |-> HeldBy[k], t |-> LET s == held[HeldBy[k]][1] IN [ok |-> TRUE, first |-> W(s[1]), last |-> W(s[2]), count |-> W(HeldBy[k])]]]]>>
Rng == [f \in 1..NFiles |-> IF rng[f] = <<>> THEN <<>> ELSE <<[first |-> W(rng[f][1][1]), last |-> W(rng[f][1][2])]>>]
F(k) == IF fence[k] = <<>> THEN <<>> ELSE <<W(fence[k][1])>>
Qq == [QInit(QRRset) EXCEPT !.name = <<<<<<97>>>>>>, !.fb = F(1), !.fa = F(2), !.lb = F(3), !.la = F(4), !.agg = agg, !.off = <<off>>]
StagesYieldAnswer ==
  fence # <<>> =>
    LET s == Stages(Qq, Db, Rng, TRUE) IN
    /\ Answer(Qq, Db) = [k \in 1..Len(s.out) |-> ObsTimes(s.out[k].rec, s.out[k].t)]
    (* every observation is accounted for: passed on or counted out *)
    /\ (agg /\ off = 0) => Len(s.out) + s.time + s.rem + s.pre + s.bw <= 1
=============================================================================
