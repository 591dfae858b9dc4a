------------------------------ MODULE MergeTool ------------------------------
(* The merge command (C27).  A directory of tables; each run reads the       *)
(* tables named first and writes the last named: every key of any input,    *)
(* once, ascending, with the merge of the values the inputs hold for it.     *)
(* A table is a sequence of [k, v]; a directory a sequence of [name, tab].   *)
EXTENDS Merge
Keys(t) == {t[i].k : i \in 1..Len(t)}
Has(d, n) == \E i \in 1..Len(d) : d[i].name = n
Tab(d, n) == d[CHOOSE i \in 1..Len(d) : d[i].name = n].tab
Val(t, k) == t[CHOOSE i \in 1..Len(t) : t[i].k = k].v
(* the values the inputs hold for a key, in the order the inputs are named *)
Held(tabs, k) == LET s == SelectSeq(tabs, LAMBDA t : k \in Keys(t)) IN [i \in 1..Len(s) |-> Val(s[i], k)]
IsMergeOf(out, tabs) ==
  /\ \A i \in 1..(Len(out) - 1) : LexLt(out[i].k, out[i + 1].k)
  /\ Keys(out) = UNION {Keys(tabs[i]) : i \in 1..Len(tabs)}
  /\ \A i \in 1..Len(out) : LET vs == Held(tabs, out[i].k) IN
       IF Len(vs) = 1 THEN out[i].v = vs[1] ELSE MergeOk(out[i].k, vs, out[i].v)

(* --------------------------------------------------------- command lines *)
Refused(args) == Len(args) < 2 \/ args[1] = <<>> \/ args[2] = <<>>
Optional == {98, 99, 108, 116}      \* -b -c -l -t, each with an operand
(* operands of mtbl_merge: options (with their operand, attached or not) first *)
RECURSIVE Operands(_)
Operands(a) == IF a = <<>> THEN <<>>
  ELSE IF a[1] = <<45, 45>> THEN Tail(a)
  ELSE IF Len(a[1]) = 2 /\ a[1][1] = 45 /\ a[1][2] \in Optional
       THEN (IF Len(a) < 2 THEN <<>> ELSE Operands(SubSeq(a, 3, Len(a))))
  ELSE IF Len(a[1]) > 2 /\ a[1][1] = 45 /\ a[1][2] \in Optional THEN Operands(Tail(a))
  ELSE a
Inputs(args) == LET o == Operands(args) IN SubSeq(o, 1, Len(o) - 1)
Output(args) == LET o == Operands(args) IN o[Len(o)]
(* a run goes through when all its inputs are there and its output is not *)
Feasible(d, args) ==
  /\ ~Refused(args) /\ Len(Operands(args)) >= 2
  /\ \A i \in 1..Len(Inputs(args)) : Has(d, Inputs(args)[i])
  /\ ~Has(d, Output(args)) /\ Output(args) # <<>> /\ \A i \in 1..Len(Output(args)) : Output(args)[i] # 47      \* in the directory
Tabs(d, args) == [i \in 1..Len(Inputs(args)) |-> Tab(d, Inputs(args)[i])]
Put(d, n, t) == Append(d, [name |-> n, tab |-> t])
=============================================================================
