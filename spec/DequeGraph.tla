---------------------------- MODULE DequeGraph ----------------------------
(* Writes the complete transition graph of Deque for conformance. *)
EXTENDS Deque, TLC, Json, CSV, IOUtils

View == Q
Emit == CSVWrite("%1$s", <<ToJson([s |-> Q, e |-> ev', r |-> res', t |-> Q'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> Q, o |-> Observe(Q), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
