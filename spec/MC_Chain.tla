------------------------------ MODULE MC_Chain ------------------------------
EXTENDS MCMCChain, Conform
=============================================================================
