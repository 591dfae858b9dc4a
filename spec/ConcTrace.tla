----------------------------- MODULE ConcTrace ------------------------------
(* Recorded histories of calls and returns, single-threaded runs over the    *)
(* whole range of the counters, and reads.                                   *)
EXTENDS Conc, Words, CaseCheck
VARIABLES pos, q
Threads == 1..4
Init == CCInit /\ pos = 1 /\ q = (CASE Case.crash # "" -> {}
                                    [] Case.op = "h" -> Start(Case.v0, Threads)
                                    [] Case.op = "seq" -> {Case.v}
                                    [] OTHER -> {})
Ev == IF Case.op = "rb" THEN <<1>> ELSE Case.ev
E == Ev[pos]
(* words of 64 bits; a 32-bit counter is the lower half, and shows as its sign extension *)
Wrap(w) == IF Case.kind = "a64" THEN w ELSE (IF w[3] >= 32768 THEN <<65535, 65535>> ELSE <<0, 0>>) \o <<w[3], w[4]>>
N1 == <<0, 0, 0, 1>>
SeqVal(v) == CASE E[1] \in {"add", "addn"} -> Wrap(WAdd(v, E[2]))
               [] E[1] \in {"sub", "subt"} -> Wrap(WSub(v, E[2]))
               [] E[1] \in {"inc", "inct"} -> Wrap(WAdd(v, N1))
               [] E[1] \in {"dec", "dect"} -> Wrap(WSub(v, N1))
               [] E[1] = "zero" -> Zeros(4)
               [] E[1] = "read" -> v
SeqRet(v) == CASE E[1] \in {"zero", "read"} -> v
               [] E[1] \in {"subt", "dect", "inct"} -> IF WIsZero(SeqVal(v)) THEN N1 ELSE Zeros(4)
               [] E[1] = "addn" -> IF SeqVal(v)[1] >= 32768 THEN N1 ELSE Zeros(4)
               [] OTHER -> Zeros(4)
After == CASE Case.op = "seq" -> {SeqVal(v) : v \in {u \in q : E[3] = SeqRet(u) /\ E[4] = SeqVal(u)}}
           [] Case.op = "h" /\ E[1] = "c" -> Call(q, E[2], E[3], E[4])
           [] Case.op = "h" /\ E[1] = "r" -> Return(q, E[2], E[4])
           [] Case.op = "h" /\ E[1] = "m" -> IF E[4] = 1 THEN q ELSE {}
           [] Case.op = "rb" -> LET r == ReadAll(Case.need, 0, Case.script) IN
                 IF (Case.out.ok = 1) = r[1] /\ Case.out.taken = r[2]
                    /\ (r[1] => Case.out.bs = [k \in 1..Case.need |-> ((k - 1) * 7 + 3) % 256]) THEN {0} ELSE {}
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, q>>
     ELSE IF pos > Len(Ev) THEN st' = "ok" /\ UNCHANGED <<pos, q>>
     ELSE LET z == TLCEval(After) IN
          IF z # {} THEN st' = "todo" /\ pos' = pos + 1 /\ q' = z ELSE st' = "bad" /\ UNCHANGED <<pos, q>>
=============================================================================
