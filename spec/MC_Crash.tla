------------------------------ MODULE MC_Crash ------------------------------
(* Every observed interaction with the code ends with an outcome that the specification names:  *)
(* one that never ends, or that the code under test aborts where no refusal is possible, is a    *)
(* behaviour of no property's specification.                                                     *)
EXTENDS Conform
CrashFails(o) == IF o.crashed = "" THEN {} ELSE {"Aborted_" \o o.crashed}
=============================================================================
