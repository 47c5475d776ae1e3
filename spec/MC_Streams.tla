----------------------------- MODULE MC_Streams -----------------------------
EXTENDS Streams
=============================================================================
