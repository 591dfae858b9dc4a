----------------------------- MODULE QueryTrace -----------------------------
(* Conformance of recorded query histories to Query.  A case is the life of  *)
(* one query object: settings, executions, entries tested against it.  Every *)
(* event is one transition of the specification's query object.               *)
EXTENDS Query, CaseCheck
VARIABLES pos, q, oq       \* oq: the query as it was when the latest execution began
Stores == ndJsonDeserialize(IOEnv.STORES)
RECURSIVE LoadStores(_)
LoadStores(k) == IF k > Len(Stores) THEN <<>> ELSE <<LoadAll(Stores[k].recs)>> \o LoadStores(k + 1)
Dbs == TLCEval(LoadStores(1))
Db == Dbs[Case.store]
Sto == Stores[Case.store]

(* searching a name among records of a type whose data holds none (by its number): *)
(* what such data looks like decides, and only the type is claimed of the answer   *)
Nameless == q.type = QName /\ q.rr # <<>> /\ q.rr[1] \notin NameSearch
NoClaim == \/ q.lost \/ q.lostbw
           \/ Nameless
           \/ (q.type = QName /\ q.name = <<>>) \/ (q.type = QRaw /\ q.raw = <<>>)
Range(s) == {s[k] : k \in 1..Len(s)}
(* results that differ only in what ties may permute look the same *)
Blur(e) == IF e.ty \in {KRRset, KRdata} THEN [e EXCEPT !.c = <<>>] ELSE [e EXCEPT !.f = <<>>, !.l = <<>>, !.x = <<>>]
Times(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
AsExpected(got, q0, complete) ==
  LET full == Answer([q0 EXCEPT !.off = Zeros(4)], Db)
      exp == Skip(full, q0.off)
      n == Len(got)
  IN /\ IF complete THEN n = Len(exp) ELSE n <= Len(exp)
     /\ \A k \in 1..n : Blur(got[k]) = Blur(exp[k])
     /\ IF q0.agg THEN \A k \in 1..n : got[k] = exp[k]
        ELSE \A x \in Range(got) : Times(x, got) <= Times(x, full)
     /\ n <= 0 \/ TRUE
(* -------------------------------------------------------------- time limits *)
Limit(s) == LET a == IF q.to = <<>> THEN {} ELSE {s + q.to[1]}
                b == IF q.dl = <<>> THEN {} ELSE {q.dl[1]}
            IN a \cup b
CallOk(c) ==
  LET L == Limit(c.s)
      end == IF c.nx = <<>> THEN c.s ELSE c.nx[Len(c.nx)]
      lim == CHOOSE x \in L : \A y \in L : x <= y
      starts == [k \in 1..Len(c.nx) |-> IF k = 1 THEN c.s ELSE c.nx[k - 1]]
  IN IF L = {} THEN c.o # "T"
     ELSE IF c.o = "T" THEN end >= lim
     ELSE (c.s <= lim \/ (c.o = "F" /\ c.nx = <<>>)) /\ Cardinality({k \in 1..Len(c.nx) : starts[k] >= lim}) <= 2 * Len(Sto.files) + 2
(* ---------------------------------------------------------------- counters *)
Flags(s) == [k \in 1..10 |-> [j \in 1..4 |-> s.v[k][j][1]]]
Monotone(a, b) == \A k \in 1..10, j \in 1..4 : a.v[k][j][2] <= b.v[k][j][2]
IsSet == Case.src = "s"
ClassOf(f) == IF Fenced(q) THEN FileClass(q, Sto.ranges[f]) ELSE "main"
Shared(c) == LET in == {f \in 1..Len(Sto.files) : ClassOf(f) = c} IN
  \E k \in 1..Len(Sto.recs) : Cardinality({j \in 1..Len(Sto.recs[k].vals) : Sto.recs[k].vals[j][1] \in in}) > 1
StatsOk(o) ==
  LET n == Len(o.stats)
      L == o.stats[n]
      S == Stages(q, Db, Sto.ranges, IsSet)
      ex == CountersExist(q, IsSet)
      Filt(k) == L.v[k][1][2]
  IN n > 0 =>
     /\ \A k \in 1..n : o.stats[k].ok = 1 /\ Flags(o.stats[k]) = ex
     /\ \A k \in 1..(n - 1) : Monotone(o.stats[k], o.stats[k + 1])
     /\ (o.end = "F" /\ q.type \in {QRRset, QName, QIp, QRaw}) =>
          /\ ex[4][1] = 1 => Filt(4) = S.bw
          /\ ex[5][1] = 1 => Filt(5) = S.pre
          /\ ex[6][1] = 1 => Filt(6) = S.rem
          /\ ex[8][2] = 1 => L.v[8][2][2] = S.join
          /\ ex[9][1] = 1 => Filt(9) = S.time
          /\ ex[10][1] = 1 => Filt(10) = S.off
          /\ Len(o.res) = Len(S.out)
          /\ (IsSet /\ q.agg) => L.v[1][2][2] >= S.mainmerged
          /\ (IsSet /\ ex[7][2] = 1) => L.v[7][2][2] >= S.fillmerged
     /\ (IsSet /\ q.agg) => /\ L.v[1][4][2] = S.files["main"]
                            /\ ex[6][4] = 1 => L.v[6][4][2] = S.files["remove"]
                            /\ ex[7][4] = 1 => L.v[7][4][2] = S.files["fill"]
     \* nothing is merged where no two files hold the same key
     /\ (IsSet /\ q.agg /\ ~Shared("main")) => L.v[1][2][2] = 0
     /\ (IsSet /\ ex[7][2] = 1 /\ ~Shared("fill")) => L.v[7][2][2] = 0
     /\ ~IsSet => L.v[1][4][2] = 0 /\ L.v[1][2][2] = 0
RunOk(ev) ==
  LET o == ev.out IN
  /\ \A k \in 1..Len(o.calls) : CallOk(o.calls[k])
  /\ o.calls = <<>> => o.end # "calls"
  /\ NoClaim \/ AsExpected(o.res, q, o.end = "F")
  /\ Nameless => \A k \in 1..Len(o.res) : o.res[k].ty = KRdata /\ o.res[k].t = q.rr[1]
  /\ (~NoClaim /\ q.type = QIp /\ q.ip = <<>>) => o.res = <<>>
  /\ (~NoClaim /\ o.end = "max") => Len(o.res) = o.max
  /\ (NoClaim \/ o.null = 1) \/ StatsOk(o)
  (* everything found is accepted by testing it against the same query *)
(* going on with the latest execution; only time limits were changed meanwhile. *)
(* Limits set when none was in force at its beginning may go unheeded.          *)
RECURSIVE Began(_)
Began(p) == IF Case.ev[p].e = "run" THEN p ELSE Began(p - 1)
RECURSIVE GotFrom(_, _)
GotFrom(a, b) == IF a > b THEN <<>> ELSE (IF Case.ev[a].e \in {"run", "more"} THEN Case.ev[a].out.res ELSE <<>>) \o GotFrom(a + 1, b)
MoreOk(ev) ==
  LET o == ev.out
      a == Began(pos)
      limited == oq.to # <<>> \/ oq.dl # <<>> IN
  /\ limited => \A k \in 1..Len(o.calls) : CallOk(o.calls[k])
  /\ \A k \in 1..Len(o.calls) : Limit(0) = {} => o.calls[k].o # "T"
  /\ NoClaim \/ AsExpected(GotFrom(a, pos) \o o.res, oq, o.end = "F")
FiltOk(ev) ==
  LET e == Decode(ev.key, ev.val) IN
  IF ~e.ok THEN ev.out.dec = 0
  ELSE /\ ev.out.dec = 1
       /\ (q.lostbw) \/ (ev.out.pass = 1 <=> FilterPass(q, e))
SetOk(ev) ==
  LET r == Set(q, ev) IN
  /\ (ev.out.ok = 1) <=> r.ok
  /\ ~r.ok => ev.out.err = 1
EvOk(ev) == CASE ev.e = "set" -> SetOk(ev) [] ev.e = "run" -> RunOk(ev) [] ev.e = "more" -> MoreOk(ev) [] ev.e = "filt" -> FiltOk(ev)
After(ev) == IF ev.e = "set" THEN Set(q, ev).q ELSE q

QTInit == ci \in 1..Len(Cases) /\ st = "todo" /\ pos = 0 /\ q = QInit(Case.kind) /\ oq = q
QTNext ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ pos' = pos /\ q' = q /\ oq' = oq
     ELSE LET ev == Case.ev[pos + 1] IN
          /\ pos' = pos + 1 /\ q' = After(ev) /\ oq' = (IF ev.e = "run" THEN q ELSE oq)
          /\ st' = IF ~EvOk(ev) THEN "bad" ELSE IF pos + 1 = Len(Case.ev) THEN "ok" ELSE "todo"
=============================================================================
