------------------------------- MODULE SimTrace -------------------------------
EXTENDS Similarity, Judge
==============================================================================
