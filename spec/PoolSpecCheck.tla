---------------------------- MODULE PoolSpecCheck ---------------------------
(* A small instance of PoolSpec.                                             *)
EXTENDS PoolSpec
CONSTANTS NT, NC
CTasks == 1..NT
CCounters == 1..NC
Few == pl <= 1 /\ ps <= 1
=============================================================================
