------------------------------ MODULE MCGoroot ------------------------------
EXTENDS XgoGoroot
Inv == Finished /\ Untouched /\ Honest /\ NotStuck
=============================================================================
