------------------------------- MODULE ArgvMC -------------------------------
(* What the parser guarantees, over every argument list of a small alphabet. *)
EXTENDS Argv, TLC
CONSTANTS MaxArgs, Which
VARIABLES t, as
E(sh, lo, role, ty, arr, must) == [sh |-> sh, lo |-> lo, role |-> role, ty |-> ty, arr |-> arr, must |-> must]
Opt(sh, lo, ty) == E(sh, lo, "opt", ty, 0, 0)
Pos(role, arr) == E(0, <<>>, role, "string", arr, 0)
Ln(r) == E(0, <<>>, r, "none", 0, 0)
a == 97  b == 98  c == 99
(* -a flag (--ab), -b int (--abc), -c counter *)
Tables == CASE Which = 1 -> {<<Opt(a, <<a, b>>, "bool"), Opt(b, <<a, b, c>>, "int"), Opt(c, <<>>, "incr"), Pos("mand", 0), Pos("maybe", 1)>>}
            [] Which = 2 -> {<<Opt(a, <<a>>, "bool"), Ln("or"), Opt(b, <<b>>, "int"), Ln("or"), Opt(c, <<c>>, "bool")>>,
                             <<Opt(a, <<a>>, "bool"), Ln("xor"), Opt(b, <<b>>, "int"), Ln("xor"), Opt(c, <<c>>, "bool"), Pos("maybe", 0)>>}
            [] Which = 3 -> {<<E(b, <<b>>, "opt", "int", 1, 1), Opt(a, <<>>, "int"), Pos("mand", 1)>>}
D == 45
Alphabet == {<<D, a>>, <<D, b>>, <<D, b, 61, 53>>, <<D, D, a, b>>, <<D, D, b, 61, 54>>, <<D, a, b>>, <<D, 55>>, <<56>>, <<D, D>>, <<D, c>>, <<D, D, a, b, c>>}
Cfg == [close |-> 1, toggle |-> 0, multi |-> 1, env |-> "none", envs |-> <<>>, files |-> <<>>]
Init == t \in Tables /\ as = <<>>
Next == Len(as) < MaxArgs /\ \E x \in Alphabet : as' = Append(as, x) /\ UNCHANGED t
R == Parse(t, Cfg, as)
Opts == {e \in 1..Len(t) : ~Link(t[e])}
(* untouched entries hold nothing new, and only named or filled ones were touched *)
Untouched == \A e \in Opts : ~R.used[e] => R.val[e] = <<>>
(* an accepted command line respects every rule of the table *)
Rules == R.ok =>
  /\ R.q = <<>>
  /\ \A e \in Opts : R.used[e] => R.val[e] # <<>>
  /\ \A e \in Opts, f \in Opts : e # f /\ Joined(t, e, f) => ~(R.used[e] /\ R.used[f])
  /\ \A e \in 1..Len(t) : t[e].role = "xor" => Cardinality({f \in Opts : R.used[f] /\ Joined(t, e - 1, f)}) = 1
  /\ \A e \in Opts : (t[e].role = "mand" \/ t[e].must = 1) => R.used[e]
  /\ \A e \in Opts : t[e].role \in {"mand", "maybe"} /\ t[e].arr = 0 => Len(R.val[e]) <= 1
Same(x, y) == x.ok = y.ok /\ (x.ok => x.val = y.val /\ x.used = y.used)
Dashes == {i \in 1..Len(as) : as[i] = <<D, D>>}
Before(i) == \A j \in 1..i : as[j] # <<D, D>>
Put(i, xs) == SubSeq(as, 1, i - 1) \o xs \o SubSeq(as, i + 1, Len(as))
(* other spellings of the same thing: a combined group taken apart; =value or the value after;
   the long name for the short one *)
Respell ==
  \A i \in 1..Len(as) : Before(i) =>
    /\ as[i] = <<D, a, b>> => Same(R, Parse(t, Cfg, Put(i, <<<<D, a>>, <<D, b>>>>)))
    /\ (as[i] = <<D, b, 61, 53>> /\ (\E e \in 1..Len(t) : t[e].sh = b /\ HasArg(t[e]))
        /\ Args(t, Cfg, Init0(t), SubSeq(as, 1, i - 1), FALSE).q = <<>>)
         => Same(R, Parse(t, Cfg, Put(i, <<<<D, b>>, <<53>>>>)))
    /\ (as[i] = <<D, a>> /\ t[1].lo = <<a, b>>) => Same(R, Parse(t, Cfg, Put(i, <<<<D, D, a, b>>>>)))
(* every value is used once, in order: what was accepted accounts for every plain argument *)
PlainN == Cardinality({i \in 1..Len(as) : as[i] = <<56>>})
SumLen[k \in 0..Len(t)] == IF k = 0 THEN 0 ELSE SumLen[k - 1] + Cardinality({j \in 1..Len(R.val[k]) : R.val[k][j] \in {W(8), <<56>>}})
Accounted == R.ok => SumLen[Len(t)] = PlainN
(* after "--" nothing is an option *)
Ended == \A i \in 1..Len(as) : (as[i] = <<D, D>> /\ Before(i - 1)) =>
   LET s == Args(t, Cfg, Init0(t), SubSeq(as, 1, i), FALSE) IN
   \A e \in Opts : t[e].role = "opt" /\ ~s.used[e] => ~Args(t, Cfg, Init0(t), as, FALSE).used[e]
=============================================================================
