---------------------------- MODULE FormatTrace ----------------------------
(* Conformance of the renderings of an entry (C19, C20) to Format.           *)
EXTENDS Format, CaseCheck
Bool(x) == x = 1
Opt(c, j) == IF j THEN <<"j000", "j001", "j010", "j011", "j100", "j101", "j110", "j111">> ELSE
                       <<"t000", "t001", "t010", "t011", "t100", "t101", "t110", "t111">>
JsonOk(c, e) ==
  LET o == c.out z == c.zone = 1 IN
  /\ ReadsAs(o.json0, Members(e, o.rp, z, FALSE, FALSE, FALSE))
  /\ o.fdef = o.json0
  /\ \A d \in 0..1, a \in 0..1, r \in 0..1 :
       ReadsAs(o[Opt(c, TRUE)[4*d + 2*a + r + 1]], Members(e, o.rp, z, d = 1, a = 1, r = 1))
TextOk(c, e) ==
  LET o == c.out z == c.zone = 1 IN
  /\ o.text0 = Text(e, o.rp, z, FALSE)
  /\ \A d \in 0..1, a \in 0..1, r \in 0..1 : o[Opt(c, FALSE)[4*d + 2*a + r + 1]] = Text(e, o.rp, z, d = 1)
COk(c) ==
  LET e == Decode(c.key, c.val) IN
  /\ c.out.ok = 1 /\ e.ok
  /\ IF c.op = "json" THEN JsonOk(c, e) ELSE TextOk(c, e)
CCNext == CCStep(COk(Case))
=============================================================================
