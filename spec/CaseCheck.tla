----------------------------- MODULE CaseCheck -----------------------------
(* Conformance of recorded behaviours of the implementation.  A case is one *)
(* observed behaviour: a call with its result, or a whole history.  A       *)
(* judging specification extends this module and defines                    *)
(*      CCNext == CCStep(<what the specification says of Cases[ci]>)        *)
(* Every case becomes one behaviour, and CCInv fails exactly on the cases   *)
(* the specification does not allow.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES ci, st
Cases == ndJsonDeserialize(IOEnv.CASES)
Case == Cases[ci]
CCInit == ci \in 1..Len(Cases) /\ st = "todo"
(* an execution that crashed, hung or touched memory it does not own is not *)
(* a behaviour of any of the specifications                                  *)
CCStep(ok) == /\ st = "todo"
              /\ ci' = ci
              /\ st' = IF Case.crash = "" /\ ok THEN "ok" ELSE "bad"
CCInv == st # "bad"
=============================================================================
