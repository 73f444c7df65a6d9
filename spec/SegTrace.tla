------------------------------- MODULE SegTrace -------------------------------
EXTENDS Segmentation, Judge
==============================================================================
