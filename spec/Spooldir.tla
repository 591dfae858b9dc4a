------------------------------ MODULE Spooldir ------------------------------
(* A spool directory (C32): files appear in `incoming`, and each call moves  *)
(* at most one visible regular file to `active` under its name, atomically,  *)
(* and returns it.  Any number of callers share a handle, any number of      *)
(* handles share the directories, and others add to and take from both.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
SNone == [id |-> 0, t |-> ""]
SPut(f, n, x) == TLCEval([m \in DOMAIN f \cup {n} |-> IF m = n THEN x ELSE f[m]])
SDel(f, n) == TLCEval([m \in DOMAIN f \ {n} |-> f[m]])
SGet(f, n) == IF n \in DOMAIN f THEN f[n] ELSE SNone
SEmpty == [m \in {} |-> SNone]
(* inc, act: the directories;  owed[c]: what c's call has moved;  cfl[c]: a   *)
(* file was taken away, or stood in the way, while c's call ran;  sure[h]:   *)
(* what a scan on handle h cannot miss; busy: callers inside a call; was[c]:  *)
(* what was there when c's call began;  had[c]: `sure' for its handle then    *)
SNew == [inc |-> SEmpty, act |-> SEmpty, owed |-> SEmpty, cfl |-> {}, sure |-> SEmpty, busy |-> {}, handed |-> {}, was |-> SEmpty, had |-> SEmpty]
(* hidden[n]: the names starting with a dot; passed in since TLA+ strings    *)
(* have no parts *)
SRegular(x) == x.t \in {"f", "l"}
SDue(s, hid) == {s.inc[n].id : n \in {m \in DOMAIN s.inc \ hid : s.inc[m].t = "f" /\ SGet(s.act, m).t # "d"}}
SPresent(s) == {s.inc[n].id : n \in DOMAIN s.inc}
SBlocked(s, hid) == \E n \in DOMAIN s.inc \ hid : SRegular(s.inc[n]) /\ SGet(s.act, n).t = "d"
SOpen(s, h, hid) == [s EXCEPT !.sure = SPut(@, h, SDue(s, hid))]
SAdd(s, n, id, t) == [s EXCEPT !.inc = SPut(@, n, [id |-> id, t |-> t]), !.cfl = IF n \in DOMAIN s.inc THEN s.busy ELSE @]
SRemove(s, n) == [s EXCEPT !.inc = SDel(@, n), !.cfl = s.busy]
SPlace(s, n, id, t) == [s EXCEPT !.act = SPut(@, n, [id |-> id, t |-> t]), !.cfl = IF t = "d" THEN s.busy ELSE @]
STakeAway(s, n) == [s EXCEPT !.act = SDel(@, n)]
SCallOk(s, c) == c \notin s.busy
SCall(s, c, h, hid) == [s EXCEPT !.had = SPut(@, c, s.sure[h]), !.was = SPut(@, c, SPresent(s)), !.busy = @ \cup {c}, !.owed = SPut(@, c, ""), !.cfl = (@ \ {c}) \cup (IF SBlocked(s, hid) THEN {c} ELSE {})]
SMoveOk(s, c, n, id, hid) == /\ c \in s.busy /\ s.owed[c] = ""
                             /\ n \in DOMAIN s.inc \ hid /\ s.inc[n].id = id /\ SRegular(s.inc[n])
                             /\ id \notin s.handed
                             /\ SGet(s.act, n).t # "d"
SMove(s, c, n) == [s EXCEPT !.inc = SDel(@, n), !.act = SPut(@, n, s.inc[n]), !.owed = SPut(@, c, n), !.handed = @ \cup {s.inc[n].id},
                            !.cfl = @ \cup (s.busy \ {c})]
(* a call that moved a file returns it; one that did not returns nothing,    *)
(* which it may only when nothing it cannot have missed is left *)
SReturnOk(s, c, n, hid) ==
  /\ c \in s.busy
  /\ n = s.owed[c]
  /\ n = "" => (c \in s.cfl \/ s.had[c] \cap SDue(s, hid) = {})
SReturn(s, c, n, h, hid) ==
  [s EXCEPT !.busy = @ \ {c}, !.cfl = @ \ {c},
            !.sure = IF n # "" THEN @ ELSE SPut(@, h, IF c \in s.cfl THEN {} ELSE s.was[c] \cap SDue(s, hid))]
SEndOk(s, hid) == SDue(s, hid) = {} /\ s.busy = {}
=============================================================================
