----------------------------- MODULE MC_Zonotope -----------------------------
EXTENDS Zonotope, Conform
=============================================================================
