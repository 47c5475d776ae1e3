------------------------------- MODULE MC_Law -------------------------------
EXTENDS LawConform, Conform
=============================================================================
