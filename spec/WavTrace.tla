------------------------------ MODULE WavTrace ------------------------------
EXTENDS Wav, Judge
==============================================================================
