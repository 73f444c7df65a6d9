------------------------------ MODULE PatchTrace ------------------------------
EXTENDS PatchMatch, Judge
==============================================================================
