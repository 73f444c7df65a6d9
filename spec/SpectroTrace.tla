----------------------------- MODULE SpectroTrace -----------------------------
EXTENDS Spectro, Judge
==============================================================================
