------------------------------ MODULE VecTrace ------------------------------
(* Recorded operations on vectors and byte buffers.  An event is            *)
(* <<op, vector, a, xs, ret, see>>: see is, for every vector, its size, its  *)
(* bytes per size, the offset of its tail pointer, its elements read one by  *)
(* one and read through its data pointer.                                    *)
EXTENDS Vec, CaseCheck
VARIABLES pos, q
Init == CCInit /\ pos = 1 /\ q = (IF Case.crash = "" THEN [v \in 1..Case.nv |-> <<>>] ELSE <<>>)
E == Case.ev[pos]
Op == E[1]
V == E[2] + 1
A == E[3]
Xs == E[4]
Ret == E[5]
S == q[V]
Fmt(k, xs, n) == CASE k = 0 -> <<>>
                   [] k = 1 -> xs
                   [] k = 2 -> <<91>> \o xs \o <<93>> \o DecText(n)
                   [] k = 3 -> DecText(n)
                   [] k = 4 -> xs \o xs
After == CASE Op \in {"i", "R", "D", "K", "Z"} -> <<>>
           [] Op \in {"A", "P", "V", "l"} -> S \o Xs
           [] Op = "X" -> S \o q[A + 1]
           [] Op = "C" -> VClip(S, A)
           [] Op = "s" -> AddCstr(S, Xs)
           [] Op = "f" -> NoTerm(S) \o Fmt(E[3], Xs, Ret[1])
           [] Op \in {"t", "c"} -> CTerm(S)
           [] Op = "r" -> RStrip(S, A)
           [] Op = "u" -> Xs
RetOk == CASE Op = "D" -> Ret = S
           [] Op = "K" -> Ret = <<1>>
           [] Op = "c" -> Ret = UpToNul(S)
           [] OTHER -> TRUE
Ok(z) == \A v \in 1..Case.nv : LET o == E[6][v] IN
           /\ o[1] = Len(z[v]) /\ o[2] = Len(z[v]) /\ o[3] = Len(z[v])
           /\ o[4] = z[v] /\ o[5] = z[v]
Next ==
  /\ st = "todo" /\ ci' = ci
  /\ IF Case.crash # "" THEN st' = "bad" /\ UNCHANGED <<pos, q>>
     ELSE IF pos > Len(Case.ev) THEN st' = "ok" /\ UNCHANGED <<pos, q>>
     ELSE LET z == TLCEval([q EXCEPT ![V] = After]) IN
          IF RetOk /\ Ok(z) THEN st' = "todo" /\ pos' = pos + 1 /\ q' = z ELSE st' = "bad" /\ UNCHANGED <<pos, q>>
=============================================================================
