---- MODULE MC_Histories ----
EXTENDS ObjectHistories
====
