--------------------------- MODULE StatNamesTrace ---------------------------
(* The names of the counters: one per stage and category, distinct, each     *)
(* leading back to what it names; nothing else has a name.                    *)
EXTENDS CaseCheck
StageNames == <<"fileset", "single label", "rrtype", "bailiwick", "time prefilter", "remove strict", "fill merger", "left join", "time", "offset">>
CatNames == <<"filtered", "merged", "seek", "files">>
NameOk(x, names) == IF x.i + 1 \in DOMAIN names THEN x.has = 1 /\ x.s = names[x.i + 1] /\ x.back = x.i ELSE x.has = 0
CCNext == CCStep(/\ Case.bad = 0 /\ Len(Case.stages) > 10 /\ Len(Case.cats) > 4
                 /\ \A k \in 1..Len(Case.stages) : NameOk(Case.stages[k], StageNames)
                 /\ \A k \in 1..Len(Case.cats) : NameOk(Case.cats[k], CatNames))
=============================================================================
