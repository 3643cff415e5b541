------------------------------ MODULE LinkMC ------------------------------
EXTENDS Link
=============================================================================
