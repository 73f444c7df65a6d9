------------------------------ MODULE AlignTrace ------------------------------
EXTENDS Align, Judge
==============================================================================
