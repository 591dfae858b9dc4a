----------------------------- MODULE ZoneTrace ------------------------------
(* Recorded readings of zone files.  c.f: the file's items; c.out: opened,   *)
(* and per read its answer with the getters' values after it.                *)
EXTENDS Zone, CaseCheck
Same(e, x) == /\ e.st = x.st
              /\ x.st = "rr" => e.owner = x.owner /\ e.type = x.type /\ e.rd = x.rd /\ (x.ttl > 0 => e.ttl = x.ttl)
RECURSIVE Follow(_, _, _, _)
Follow(f, z, ev, i) ==
  i > Len(ev) \/
  LET r == Read(f, z) IN
  /\ Same(ev[i], r[2]) /\ ev[i].count = r[1].count /\ ev[i].domain = Wire(r[1].domain) /\ ev[i].serial = r[1].serial
  /\ Follow(f, r[1], ev, i + 1)
COk(c) == LET z == Open(c.f) IN
  IF z.phase = "refused" THEN c.out.open = 0
  ELSE /\ c.out.open = 1 /\ c.out.count = 1 /\ c.out.domain = Wire(z.domain) /\ c.out.serial = z.serial
       /\ Follow(c.f, z, c.out.ev, 1)
CCNext == CCStep(COk(Case))
=============================================================================
