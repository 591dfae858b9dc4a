------------------------------ MODULE ScanTrace ------------------------------
(* Full scans: every stored record of the wanted kind (or of any kind) that  *)
(* can be decoded, in key order, merged over the files, once.                *)
EXTENDS Query, CaseCheck
Stores == ndJsonDeserialize(IOEnv.STORES)
RECURSIVE LoadStores(_)
LoadStores(k) == IF k > Len(Stores) THEN <<>> ELSE <<LoadAll(Stores[k].recs)>> \o LoadStores(k + 1)
Dbs == TLCEval(LoadStores(1))
Wanted == LET w == Case.which IN IF w \in Kinds THEN {w} ELSE Kinds
Expected == LET M == SelectSeq(Dbs[Case.store], LAMBDA r : r.ok /\ r.kind \in Wanted)
            IN Cat([k \in 1..Len(M) |-> Entries(QInit(QRaw), M[k])])
CCNext == CCStep(Case.again = 0 /\ Case.res = Expected)
=============================================================================
