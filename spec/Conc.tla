-------------------------------- MODULE Conc --------------------------------
(* Small shared objects (C49): counters, pointers and thread numbers, used   *)
(* by several threads at once.  Every operation takes effect at one instant  *)
(* between its call and its return.                                          *)
EXTENDS Integers, Sequences, FiniteSets
B(x) == IF x THEN 1 ELSE 0
(* the effect of an operation on value v: <<new value, result>> *)
Effect(op, a, v) ==
  CASE op = "add" -> <<v + a, 0>>
    [] op = "sub" -> <<v - a, 0>>
    [] op = "inc" -> <<v + 1, 0>>
    [] op = "dec" -> <<v - 1, 0>>
    [] op = "zero" -> <<0, v>>
    [] op = "subt" -> <<v - a, B(v - a = 0)>>
    [] op = "dect" -> <<v - 1, B(v - 1 = 0)>>
    [] op = "inct" -> <<v + 1, B(v + 1 = 0)>>
    [] op = "addn" -> <<v + a, B(v + a < 0)>>
    [] op = "read" -> <<v, v>>
    [] op = "pset" -> <<a, 1>>
    [] op = "reg" -> <<v + 1, v>>
(* a configuration: the value, and for each thread nothing pending, an       *)
(* operation pending, or its effect taken and its result due.  A pointer may *)
(* refuse to be set only if another thread changed it since the call.        *)
Idle == <<"idle", "", 0, FALSE>>
Call(cfgs, t, op, a) == {[v |-> c.v, p |-> [c.p EXCEPT ![t] = <<"pend", op, a, FALSE>>]] : c \in cfgs}
Take(c, t) ==
  LET e == Effect(c.p[t][2], c.p[t][3], c.v)
      p == [c.p EXCEPT ![t] = <<"due", "", e[2], FALSE>>]
  IN [v |-> e[1], p |-> IF e[1] = c.v THEN p ELSE [u \in DOMAIN p |-> IF p[u][1] = "pend" THEN <<"pend", p[u][2], p[u][3], TRUE>> ELSE p[u]]]
Refuse(c, t) == [c EXCEPT !.p[t] = <<"due", "", 0, FALSE>>]
Steps(c) == {Take(c, t) : t \in {u \in DOMAIN c.p : c.p[u][1] = "pend"}}
            \cup {Refuse(c, t) : t \in {u \in DOMAIN c.p : c.p[u][1] = "pend" /\ c.p[u][2] = "pset" /\ c.p[u][4]}}
RECURSIVE Closure(_)
Closure(cfgs) == LET n == cfgs \cup UNION {Steps(c) : c \in cfgs} IN IF n = cfgs THEN cfgs ELSE Closure(n)
Return(cfgs, t, r) == {[v |-> c.v, p |-> [c.p EXCEPT ![t] = Idle]] : c \in {d \in Closure(cfgs) : d.p[t][1] = "due" /\ d.p[t][3] = r}}
Start(v, ts) == {[v |-> v, p |-> [t \in ts |-> Idle]]}
(* --- reading a number of bytes: the script is what each read gives: n > 0 bytes, 0 end, -1 interrupted, -2 error --- *)
RECURSIVE ReadAll(_, _, _)
ReadAll(need, got, script) ==   \* <<ok, bytes taken>>
  IF got = need THEN <<TRUE, got>>
  ELSE IF script = <<>> THEN <<FALSE, got>>
  ELSE LET s == Head(script) IN
       CASE s = -1 -> ReadAll(need, got, Tail(script))
         [] s = -2 \/ s = 0 -> <<FALSE, got>>
         [] s > 0 -> ReadAll(need, got + (IF s < need - got THEN s ELSE need - got), Tail(script))
=============================================================================
