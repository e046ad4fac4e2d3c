------------------------------ MODULE MCSource ------------------------------
(* Exhaustive exploration of XgoSource with few names and positions.         *)
EXTENDS XgoSource
View == <<val, mocks, frames>>
=============================================================================
