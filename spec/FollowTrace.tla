----------------------------- MODULE FollowTrace -----------------------------
(* Recorded lives of readers of a set file against Follow, with the answers  *)
(* Query gives for the files listed.                                         *)
EXTENDS Query, CaseCheck, Follow
VARIABLES pos, s, qs
Stores == ndJsonDeserialize(IOEnv.STORES)
(* the table records of the files F of a store *)
KeepF(vs, F) == SelectSeq(vs, LAMBDA v : v[1] \in F)
Restrict(recs, F) == SelectSeq([k \in 1..Len(recs) |-> [recs[k] EXCEPT !.vals = KeepF(recs[k].vals, F)]], LAMBDA r : r.vals # <<>>)
Subs(k) == SUBSET {Stores[k].files[i] : i \in 1..Len(Stores[k].files)}
RECURSIVE LoadStores(_)
LoadStores(k) == IF k > Len(Stores) THEN <<>> ELSE <<TLCEval([F \in Subs(k) |-> TLCEval(LoadAll(Restrict(Stores[k].recs, F)))])>> \o LoadStores(k + 1)
Dbs == TLCGet(7)
Wanted(w) == IF w \in Kinds THEN {w} ELSE Kinds
Scan(w, db) == LET M == SelectSeq(db, LAMBDA r : r.ok /\ r.kind \in Wanted(w))
               IN Cat([k \in 1..Len(M) |-> Entries(QInit(QRaw), M[k])])
Range(x) == {x[k] : k \in 1..Len(x)}
Blur(e) == IF e.ty \in {KRRset, KRdata} THEN [e EXCEPT !.c = <<>>] ELSE [e EXCEPT !.f = <<>>, !.l = <<>>, !.x = <<>>]
Times(x, l) == Cardinality({k \in 1..Len(l) : l[k] = x})
NoClaim(q) == q.lost \/ q.lostbw \/ (q.type = QName /\ q.name = <<>>) \/ (q.type = QRaw /\ q.raw = <<>>)
Fits(what, F, got, complete) ==
  LET db == Dbs[Case.store][F] IN
  IF what.e = "scan" THEN \E x \in {Scan(what.w, db)} : Len(got) <= Len(x) /\ got = SubSeq(x, 1, Len(got)) /\ (complete => Len(got) = Len(x))
  ELSE \/ NoClaim(what.q)
       \/ \E full \in {Answer([what.q EXCEPT !.off = Zeros(4)], db)} : \E x \in {Skip(full, what.q.off)} :
          LET n == Len(got) IN
          /\ IF complete THEN n = Len(x) ELSE n <= Len(x)
          /\ \A k \in 1..n : Blur(got[k]) = Blur(x[k])
          /\ IF what.q.agg THEN \A k \in 1..n : got[k] = x[k]
             ELSE \A y \in Range(got) : Times(y, got) <= Times(y, full)
(* ------------------------------------------------------------------ events *)
SetOk(ev) == LET r == Set(qs[ev.n], ev) IN ((ev.out.ok = 1) <=> r.ok) /\ (~r.ok => ev.out.err = 1)
NextS(ev) ==
  CASE ev.e = "list" -> FList(s, Range(ev.f))
    [] ev.e = "start" -> FStart(s)
    [] ev.e = "reload" -> FReload(s)
    [] ev.e = "scan" -> FOpen(s, ev.k, [e |-> "scan", w |-> ev.w])
    [] ev.e = "ask" -> FOpen(s, ev.k, [e |-> "ask", q |-> qs[ev.n]])
    [] ev.e = "close" -> FClose(s, ev.k)
    [] ev.e = "get" -> FGet(s, ev.k, ev.n, ev.out.res, ev.out.end = 1, Fits)
    [] OTHER -> s
EvOk(ev, ns) == CASE ev.e = "set" -> SetOk(ev)
              [] ev.e = "get" -> /\ FGetOk(s, ev.k, ev.n, ev.out.res, ev.out.end = 1)
                                 /\ Settled(ns)
              [] OTHER -> TRUE
NextQ(ev) == CASE ev.e = "def" -> Append(qs, QInit(ev.kind))
               [] ev.e = "set" -> [qs EXCEPT ![ev.n] = Set(qs[ev.n], ev).q]
               [] OTHER -> qs
FTInit == TLCSet(7, TLCEval(LoadStores(1))) /\ ci \in 1..Len(Cases) /\ st = "todo" /\ pos = 0 /\ s = FInit /\ qs = <<>>
FTNext ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, s, qs>>
     ELSE \E ev \in {Case.ev[pos + 1]} : \E ns \in {NextS(ev)} :
          /\ pos' = pos + 1 /\ s' = ns /\ qs' = NextQ(ev)
          /\ st' = IF ~EvOk(ev, ns) THEN "bad" ELSE IF pos + 1 = Len(Case.ev) THEN "ok" ELSE "todo"
=============================================================================
