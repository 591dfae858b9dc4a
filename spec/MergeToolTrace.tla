--------------------------- MODULE MergeToolTrace ---------------------------
(* Recorded sequences of runs of the merge command in one directory (C27):   *)
(* one transition per run.  A run records its arguments, exit status, the    *)
(* arguments mtbl_merge was started with (never more than one start), and    *)
(* the directory afterwards.                                                  *)
EXTENDS MergeTool, CaseCheck
VARIABLES pos, dir
Init == CCInit /\ pos = 1 /\ dir = Cases[ci].dir
Ev == Case.h[pos]
Names(d) == {d[i].name : i \in 1..Len(d)}
Same(d, e) == Names(d) = Names(e) /\ \A i \in 1..Len(d) : Tab(e, d[i].name) = d[i].tab
RunOk ==
  IF Refused(Ev.args) THEN Ev.starts = <<>> /\ Ev.exit # 0 /\ Same(dir, Ev.dir)
  ELSE /\ Ev.starts = <<Ev.args>>
       /\ IF Ev.told # -1 THEN Ev.exit = Ev.told /\ Same(dir, Ev.dir)       \* whatever status mtbl_merge ends with
          ELSE IF Feasible(dir, Ev.args)
          THEN /\ Ev.exit = 0
               /\ Names(Ev.dir) = Names(dir) \cup {Output(Ev.args)}
               /\ \A i \in 1..Len(dir) : Tab(Ev.dir, dir[i].name) = dir[i].tab
               /\ IsMergeOf(Tab(Ev.dir, Output(Ev.args)), Tabs(dir, Ev.args))
          ELSE Ev.exit # 0 /\ \A i \in 1..Len(dir) : Has(Ev.dir, dir[i].name) /\ Tab(Ev.dir, dir[i].name) = dir[i].tab
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, dir>>
     ELSE IF pos > Len(Case.h) THEN st' = "ok" /\ UNCHANGED <<pos, dir>>
     ELSE IF RunOk THEN st' = "todo" /\ pos' = pos + 1 /\ dir' = Ev.dir
     ELSE st' = "bad" /\ UNCHANGED <<pos, dir>>
=============================================================================
