---------------------------- MODULE CodecTrace ------------------------------
(* Recorded conversions. *)
EXTENDS Codec, CaseCheck
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Ins(c) == Cat([k \in 1..Len(c.chunks) |-> c.chunks[k][1]])
Outs(c) == Cat([k \in 1..Len(c.chunks) |-> c.chunks[k][2]])
E32Ok(c) == LET w == Cut(Enc32(c.bs), c.size) IN c.out.ret = Len(w) /\ c.out.bs = w
(* what follows padding is not claimed *)
D32Ok(c) ==
  LET P == {k \in 1..Len(c.bs) : c.bs[k] = 61}
      body == IF P = {} THEN c.bs ELSE SubSeq(c.bs, 1, (CHOOSE k \in P : \A j \in P : k <= j) - 1)
      clean == \A k \in (Len(body) + 1)..Len(c.bs) : c.bs[k] = 61
      X == {k \in 1..Len(body) : V32(body[k]) < 0}
      good == IF X = {} THEN body ELSE SubSeq(body, 1, (CHOOSE k \in X : \A j \in X : k <= j) - 1)
      w == Cut(Dec32(good), c.size)
      exact == c.out.ret = Len(w) /\ c.out.bs = w
  IN IF X = {} THEN ~clean \/ exact
     ELSE c.out.ret = -1 \/ (Len(w) = c.size /\ exact)   \* the output was full before the foreign character
E64Ok(c) == Outs(c.out) \o c.out.end = Enc64(Ins(c.out))
D64Ok(c) == Outs(c.out) = Dec64(Ins(c.out))
V64Ok(c) == /\ \A k \in 0..255 : IF V64(k) >= 0 THEN c.out.dec[k + 1] = V64(k) ELSE c.out.dec[k + 1] < 0
            /\ \A k \in 0..63 : c.out.enc[k + 1] = A64[k]
HexStr(c, bs) == LET w == HexFit(bs, c.up = 1, c.size) IN c.out.ret = Len(w) /\ (c.size > 0 => c.out.bs = w)
DecStr(c) == LET w == DecOf(c.v) IN
  IF c.size > Len(w) THEN c.out.ret = Len(w) /\ c.out.bs = w
  ELSE c.size > 0 => c.out.ret = Len(c.out.bs) /\ Len(c.out.bs) < c.size
UnhexOk(c) == IF HexOk(c.bs) THEN c.out.ok = 1 /\ c.out.bs = Unhex(c.bs) ELSE c.out.ok = 0
EnvOk(c) == IF c.set = 0 THEN c.out.ok = 0
            ELSE LET r == ReadNum(c.bs) IN IF r.ok THEN c.out.ok = 1 /\ c.out.v = r.v ELSE c.out.ok = 0
IpOk(c) == c.out.lo = AddrLower(c.bs, c.p) /\ c.out.hi = AddrUpper(c.bs, c.p) /\ c.out.nx = AddrNext(c.bs)
COk(c) == CASE c.op = "e32" -> E32Ok(c)
            [] c.op = "d32" -> D32Ok(c)
            [] c.op = "e64" -> E64Ok(c)
            [] c.op = "d64" -> D64Ok(c)
            [] c.op = "v64" -> V64Ok(c)
            [] c.op = "hex" -> HexStr(c, c.bs)
            [] c.op = "h16" -> HexStr(c, <<c.v \div 256, c.v % 256>>)
            [] c.op = "dec" -> DecStr(c)
            [] c.op = "unhex" -> UnhexOk(c)
            [] c.op = "env" -> EnvOk(c)
            [] c.op = "ip" -> IpOk(c)
            [] c.op = "rep" -> c.out.bs = Replace(c.bs, c.o, c.n)
            [] c.op = "prn" -> c.out.bs = Printed(c.bs)
CCNext == CCStep(COk(Case))
=============================================================================
