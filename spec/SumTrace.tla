------------------------------ MODULE SumTrace ------------------------------
(* Recorded checksums and hashes. *)
EXTENDS Sum, CaseCheck
CrcOk(c) == LET w == Crc(c.bs) IN \A k \in 1..Len(c.out.crc) : c.out.crc[k] = w
HashOk(c) ==
  LET l == HashLittle2(c.bs, c.pc, c.pb)  l0 == IF c.pb = <<0, 0>> THEN l ELSE HashLittle2(c.bs, c.pc, <<0, 0>>) IN
  /\ \A k \in 1..Len(c.out.l) : c.out.l[k] = l0[1]
  /\ \A k \in 1..Len(c.out.l2) : c.out.l2[k] = l
  /\ LET b == HashBig(c.bs, c.pc) IN \A k \in 1..Len(c.out.b) : c.out.b[k] = b
  /\ c.out.w # <<>> => LET w == LittleWords(c.bs) IN c.out.w = <<HashWord2(w, c.pc, <<0, 0>>)[1]>> \o HashWord2(w, c.pc, c.pb)
COk(c) == IF c.op = "crc" THEN CrcOk(c) ELSE HashOk(c)
CCNext == CCStep(COk(Case))
=============================================================================
