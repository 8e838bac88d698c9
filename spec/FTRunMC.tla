------------------------------ MODULE FTRunMC ------------------------------
EXTENDS FTRun, TLC
R3 == (1 :> 1) @@ (2 :> 2) @@ (3 :> 1)
R4 == (1 :> 1) @@ (2 :> 1) @@ (3 :> 2) @@ (4 :> 1)
=============================================================================
