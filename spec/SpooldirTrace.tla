--------------------------- MODULE SpooldirTrace ---------------------------
(* Recorded behaviours of the spool directory: one transition per call,      *)
(* return, change seen in the directories, or action of others.              *)
EXTENDS Spooldir, CaseCheck
VARIABLES pos, S
Init == CCInit /\ pos = 1 /\ S = SNew
E == Case.h[pos]
Kind == E[1]
Cl == E[2]
Nm == E[3]
Id == E[4]
Ty == E[5]
Hid == {Case.hidden[i] : i \in 1..Len(Case.hidden)}
Hd(c) == Case.callers[c + 1]
Ok == CASE Kind \in {"add", "del", "aadd", "adel", "open"} -> TRUE
        [] Kind = "call" -> SCallOk(S, Cl)
        [] Kind = "mv" -> SMoveOk(S, Cl, Nm, Id, Hid)
        [] Kind = "ret" -> SReturnOk(S, Cl, Nm, Hid) /\ Nm # "?"
        [] Kind = "end" -> SEndOk(S, Hid)
        [] OTHER -> FALSE
Then == CASE Kind = "add" -> SAdd(S, Nm, Id, Ty)
          [] Kind = "del" -> SRemove(S, Nm)
          [] Kind = "aadd" -> SPlace(S, Nm, Id, Ty)
          [] Kind = "adel" -> STakeAway(S, Nm)
          [] Kind = "open" -> SOpen(S, Cl, Hid)
          [] Kind = "call" -> SCall(S, Cl, Hd(Cl), Hid)
          [] Kind = "mv" -> SMove(S, Cl, Nm)
          [] Kind = "ret" -> SReturn(S, Cl, Nm, Hd(Cl), Hid)
          [] OTHER -> S
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, S>>
     ELSE IF pos > Len(Case.h) THEN st' = "ok" /\ UNCHANGED <<pos, S>>
     ELSE IF Ok THEN st' = "todo" /\ S' = Then /\ pos' = pos + 1
     ELSE st' = "bad" /\ UNCHANGED <<pos, S>>
=============================================================================
