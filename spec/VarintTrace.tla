---------------------------- MODULE VarintTrace ----------------------------
EXTENDS Words, Bytes, CaseCheck
V == INSTANCE Varint WITH Vals <- {}, Max <- 10, v <- <<>>, inb <- <<>>, pos <- 0, acc <- <<>>, st <- ""
(* {op:"enc", v: 4 limbs, out: {len, b64, b32 (if v fits), pk, d64:{n, v}, d32}} *)
EncOk(c) ==
  LET e == V!Encode(c.v) o == c.out IN
  /\ o.len = Len(e) /\ o.b64 = e
  /\ o.pk = Len(e) /\ o.d64n = Len(e) /\ o.d64 = c.v
  /\ (c.v[1] = 0 /\ c.v[2] = 0) =>
       o.b32 = e /\ o.d32n = Len(e) /\ o.d32 = <<c.v[3], c.v[4]>>
(* {op:"dec", bs, out:{pkall, n32, v32, n64, v64}}: arbitrary bytes; the      *)
(* buffer is exactly these bytes and terminated within 5/10 or long enough   *)
DecOk(c) ==
  LET o == c.out
      l32 == V!PackedLen(c.bs, 5)  l64 == V!PackedLen(c.bs, 10) IN
  /\ o.pkall = V!PackedLen(c.bs, Len(c.bs))
  /\ ("n32" \in DOMAIN o) => /\ o.n32 = l32
                             /\ (l32 > 0 => o.v32 = V!Value(c.bs, l32, 2))
  /\ ("n64" \in DOMAIN o) => /\ o.n64 = l64
                             /\ (l64 > 0 => o.v64 = V!Value(c.bs, l64, 4))
COk(c) == IF c.op = "enc" THEN EncOk(c) ELSE DecOk(c)
CCNext == CCStep(COk(Case))
=============================================================================
