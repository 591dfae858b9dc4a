----------------------------- MODULE ShareTrace -----------------------------
(* Several lives (FollowTrace) led at the same time, in threads or turn by   *)
(* turn.  Each must be a life of its own: what it observes is permitted by   *)
(* Follow, and is what it observes when it is led alone, texts included.     *)
EXTENDS FollowTrace
VARIABLE li
Lf == Case.lives[li]
LFits(what, F, got, complete) ==
  LET db == Dbs[Lf.store][F] IN
  IF what.e = "scan" THEN \E x \in {Scan(what.w, db)} : Len(got) <= Len(x) /\ got = SubSeq(x, 1, Len(got)) /\ (complete => Len(got) = Len(x))
  ELSE \/ NoClaim(what.q)
       \/ \E full \in {Answer([what.q EXCEPT !.off = Zeros(4)], db)} : \E x \in {Skip(full, what.q.off)} :
          LET n == Len(got) IN
          /\ IF complete THEN n = Len(x) ELSE n <= Len(x)
          /\ \A k \in 1..n : Blur(got[k]) = Blur(x[k])
          /\ IF what.q.agg THEN \A k \in 1..n : got[k] = x[k]
             ELSE \A y \in Range(got) : Times(y, got) <= Times(y, full)
LNextS(ev) == IF ev.e = "get" THEN FGet(s, ev.k, ev.n, ev.out.res, ev.out.end = 1, LFits) ELSE NextS(ev)
Observed(ev) == ev.e \in {"set", "get"}
LEvOk(ev, ns) == EvOk(ev, ns) /\ (Observed(ev) => ev.out = ev.alone)
ShInit == FTInit /\ li = 1
ShNext ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, s, qs, li>>
     ELSE IF pos = Len(Lf.ev) THEN
          IF li = Len(Case.lives) THEN st' = "ok" /\ UNCHANGED <<pos, s, qs, li>>
          ELSE st' = st /\ li' = li + 1 /\ pos' = 0 /\ s' = FInit /\ qs' = <<>>
     ELSE \E ev \in {Lf.ev[pos + 1]} : \E ns \in {LNextS(ev)} :
          /\ pos' = pos + 1 /\ s' = ns /\ qs' = NextQ(ev) /\ li' = li
          /\ st' = IF LEvOk(ev, ns) THEN "todo" ELSE "bad"
=============================================================================
