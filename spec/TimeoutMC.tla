------------------------------ MODULE TimeoutMC ------------------------------
(* A lookup with a time limit.  Items come from below one at a time, each    *)
(* costing some time; some are filtered out.  Before each item is taken the  *)
(* clock is compared with the call's limit.  Calls may be made until the end *)
(* is reported.  Nothing may be lost or repeated however often a call ran    *)
(* out of time, and a call that had time left must not claim it ran out.     *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS N, Costs, Tos, Dls
VARIABLES items, next, now, to, dl, call, out
vars == <<items, next, now, to, dl, call, out>>
None == 99
Idle == [st |-> "idle", limit |-> 0, start |-> 0, n |-> 0]
Init == /\ items \in UNION {[1..n -> BOOLEAN] : n \in 0..N}
        /\ to \in Tos \cup {None} /\ dl \in Dls \cup {None}
        /\ next = 1 /\ now = 0 /\ call = Idle /\ out = <<>>
Lim(s) == IF to = None THEN dl ELSE IF dl = None \/ s + to < dl THEN s + to ELSE dl
Call == /\ call.st = "idle" /\ (\A k \in 1..Len(out) : out[k][1] # "F") /\ Len(out) < 2 * N + 3
        /\ call' = [st |-> "in", limit |-> Lim(now), start |-> now, n |-> 0]
        /\ UNCHANGED <<items, next, now, to, dl, out>>
Return(x) == call' = Idle /\ out' = Append(out, <<x, next, call.start, now, call.limit, call.n>>)
Step == /\ call.st = "in"
        /\ IF call.limit # None /\ now >= call.limit
             THEN Return("T") /\ UNCHANGED <<next, now>>
             ELSE \E c \in Costs :
                    /\ now' = now + c
                    /\ IF next > Len(items) THEN next' = next /\ Return("F")
                       ELSE /\ next' = next + 1
                            /\ IF items[next] THEN Return("E") ELSE call' = [call EXCEPT !.n = @ + 1] /\ UNCHANGED out
        /\ UNCHANGED <<items, to, dl>>
Next == Call \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Pass == SelectSeq([k \in 1..Len(items) |-> k], LAMBDA k : items[k])
Got == SelectSeq(out, LAMBDA o : o[1] = "E")
Ran(x) == \E k \in 1..Len(out) : out[k][1] = x
NothingLost == /\ Len(Got) <= Len(Pass) /\ \A k \in 1..Len(Got) : Got[k][2] = Pass[k]
               /\ Ran("F") => Len(Got) = Len(Pass)
OnlyWhenDue == \A k \in 1..Len(out) : out[k][1] = "T" => out[k][5] # None /\ out[k][4] >= out[k][5]
NotPastLimit == \A k \in 1..Len(out) : (out[k][1] # "T" /\ out[k][5] # None) => out[k][3] < out[k][5]
(* with a relative limit above nought every call gets somewhere *)
Progress == (to # None /\ to > 0 /\ dl = None /\ \A c \in Costs : c <= 1) =>
              \A k \in 1..Len(out) : out[k][1] = "T" => out[k][6] > 0
Ends == dl = None /\ (to = None \/ to > 0) ~> Ran("F")
=============================================================================
