----------------------------- MODULE SpooldirMC -----------------------------
(* The steps of the callers -- scanning a directory stream that may or may   *)
(* not show later changes, checking, moving -- interleaved with others'      *)
(* actions, against Spooldir.  A file is moved by one atomic rename; with    *)
(* Unlink the destination is removed first in a step of its own, which loses *)
(* a file another handle has just handed out.                                *)
EXTENDS Spooldir, TLC
CONSTANTS Callers, Handles, Names, MaxId, Unlink
VARIABLES s, pc, pick, stream, lock, nid, lost
vars == <<s, pc, pick, stream, lock, nid, lost>>
Hid == {".h"}
HOf(c) == IF Cardinality(Handles) = 1 THEN 1 ELSE c
S0 == LET a == SAdd(SAdd(SNew, "a", 1, "f"), ".h", 2, "f") IN a
RECURSIVE OpenAll(_, _)
OpenAll(x, H) == IF H = {} THEN x ELSE LET h == CHOOSE h \in H : TRUE IN OpenAll(SOpen(x, h, Hid), H \ {h})
Init == /\ s = OpenAll(S0, Handles) /\ pc = [c \in Callers |-> "idle"] /\ pick = [c \in Callers |-> ""]
        /\ stream = [h \in Handles |-> [seen |-> {}, must |-> DOMAIN S0.inc]] /\ lock = [h \in Handles |-> 0] /\ nid = 3 /\ lost = {}
(* others *)
EnvAdd == /\ nid <= MaxId /\ \E n \in Names, t \in {"f", "d"} : n \notin DOMAIN s.inc /\ s' = SAdd(s, n, nid, t)
          /\ nid' = nid + 1 /\ UNCHANGED <<pc, pick, stream, lock, lost>>
EnvDel == /\ \E n \in DOMAIN s.inc \ Hid : s' = SRemove(s, n) /\ stream' = [h \in Handles |-> [stream[h] EXCEPT !.must = @ \ {n}]]
          /\ UNCHANGED <<pc, pick, lock, nid, lost>>
EnvTake == /\ \E n \in DOMAIN s.act : s' = STakeAway(s, n)
           /\ UNCHANGED <<pc, pick, stream, lock, nid, lost>>
(* a caller *)
Call(c) == /\ pc[c] = "idle" /\ s' = SCall(s, c, HOf(c), Hid) /\ pc' = [pc EXCEPT ![c] = "lock"] /\ UNCHANGED <<pick, stream, lock, nid, lost>>
Lock(c) == /\ pc[c] = "lock" /\ lock[HOf(c)] = 0 /\ lock' = [lock EXCEPT ![HOf(c)] = c] /\ pc' = [pc EXCEPT ![c] = "scan"] /\ UNCHANGED <<s, pick, stream, nid, lost>>
(* the stream shows every name that was there since it was rewound, once; other names it may show *)
Scan(c) == /\ pc[c] = "scan"
           /\ LET h == HOf(c) IN
              \/ \E n \in (stream[h].must \cup DOMAIN s.inc) \ stream[h].seen :
                   /\ stream' = [stream EXCEPT ![h] = [seen |-> @.seen \cup {n}, must |-> @.must \ {n}]]
                   /\ IF n \in Hid \/ SGet(s.inc, n).t # "f" THEN UNCHANGED <<pc, pick>>
                      ELSE pick' = [pick EXCEPT ![c] = n] /\ pc' = [pc EXCEPT ![c] = "dest"]
              \/ /\ stream[h].must = {} /\ stream' = [stream EXCEPT ![h] = [seen |-> {}, must |-> DOMAIN s.inc]]
                 /\ pc' = [pc EXCEPT ![c] = "none"] /\ UNCHANGED pick
           /\ UNCHANGED <<s, lock, nid, lost>>
Dest(c) == /\ pc[c] = "dest" /\ pc' = [pc EXCEPT ![c] = "move"]
           /\ IF Unlink /\ SGet(s.act, pick[c]).t = "f" /\ \E d \in Callers \ {c} : s.owed # SEmpty /\ d \in DOMAIN s.owed /\ s.owed[d] = pick[c] /\ pick[c] \notin DOMAIN s.inc
              THEN lost' = lost \cup {s.act[pick[c]].id} /\ s' = STakeAway(s, pick[c])
              ELSE UNCHANGED <<s, lost>>
           /\ UNCHANGED <<pick, stream, lock, nid>>
Move(c) == /\ pc[c] = "move" /\ LET n == pick[c] IN
             IF n \in DOMAIN s.inc /\ SGet(s.act, n).t # "d" /\ s.inc[n].t = "f"
             THEN /\ s' = SMove(s, c, n) /\ pc' = [pc EXCEPT ![c] = "have"] /\ stream' = [h \in Handles |-> [stream[h] EXCEPT !.must = @ \ {n}]]
                  /\ Assert(SMoveOk(s, c, n, s.inc[n].id, Hid), "a file moved twice")
             ELSE pc' = [pc EXCEPT ![c] = "none"] /\ UNCHANGED <<s, stream>>
           /\ UNCHANGED <<pick, lock, nid, lost>>
(* unlock, then return *)
Give(c) == /\ pc[c] \in {"have", "none"} /\ lock[HOf(c)] = c /\ lock' = [lock EXCEPT ![HOf(c)] = 0] /\ UNCHANGED <<s, pc, pick, stream, nid, lost>>
Ret(c) == /\ pc[c] \in {"have", "none"} /\ lock[HOf(c)] # c
          /\ s' = SReturn(s, c, IF pc[c] = "have" THEN pick[c] ELSE "", HOf(c), Hid)
          /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<pick, stream, lock, nid, lost>>
Next == EnvAdd \/ EnvDel \/ EnvTake \/ \E c \in Callers : Call(c) \/ Lock(c) \/ Scan(c) \/ Dest(c) \/ Move(c) \/ Give(c) \/ Ret(c)
(* every return the steps can make is one Spooldir allows *)
RetOk == \A c \in Callers : (pc[c] \in {"have", "none"} /\ lock[HOf(c)] # c) =>
           SReturnOk(s, c, IF pc[c] = "have" THEN pick[c] ELSE "", Hid)
NothingLost == lost = {}
OneEach == \A n \in DOMAIN s.inc : s.inc[n].id \notin s.handed
=============================================================================
