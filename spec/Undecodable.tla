----------------------------- MODULE Undecodable -----------------------------
(* Selects, for use as malformed records, those that hold no entry.           *)
EXTENDS Query, CaseCheck
CCNext == CCStep(~LoadRec(Case).ok)
=============================================================================
