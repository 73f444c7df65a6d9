----------------------------- MODULE MatrixTrace -----------------------------
EXTENDS Matrix, Judge
==============================================================================
