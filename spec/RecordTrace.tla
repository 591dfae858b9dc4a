---------------------------- MODULE RecordTrace ----------------------------
(* Conformance of decoding (C01, C02) to Record.                             *)
EXTENDS Record, CaseCheck
DecOk(key, val, o) ==
  LET d == Decode(key, val) IN
  IF d.ok THEN o.ok = 1 /\ o.e = Obs(d) ELSE o.ok = 0
RECURSIVE WellFormed(_, _)
WellFormed(kvs, i) ==
  IF i > Len(kvs) THEN <<>>
  ELSE LET d == Decode(kvs[i][1], kvs[i][2]) IN
       (IF d.ok THEN <<Obs(d)>> ELSE <<>>) \o WellFormed(kvs, i + 1)
COk(c) ==
  CASE c.op = "rec" ->     (* a record that was stored: the bytes are what storing it means *)
         /\ EncKey(c.rec) = c.key /\ EncVal(c.rec) = c.val
         /\ c.out.ok = 1
         /\ c.out.e = Obs([ok |-> TRUE] @@ c.rec @@ [seen |->
               IF c.rec.kind = KTimeRange THEN [first |-> c.rec.first, last |-> c.rec.last]
               ELSE IF c.rec.kind \in {KRRset, KRdata} THEN Seen([first |-> c.rec.first, last |-> c.rec.last, count |-> c.rec.count])
               ELSE <<>>])
    [] c.op = "dec" -> DecOk(c.key, c.val, c.out)
    [] c.op = "scan" -> c.out.ents = WellFormed(c.kvs, 1) /\ c.out.again = 0
CCNext == CCStep(COk(Case))
=============================================================================
