-------------------------- MODULE PrioQueueGraph --------------------------
(* Writes the complete transition graph of PrioQueue for conformance. *)
EXTENDS PrioQueue, TLC, Json, CSV, IOUtils

View == n
Emit == CSVWrite("%1$s", <<ToJson([s |-> n, e |-> ev', r |-> res', t |-> n'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> n, o |-> Observe(n), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
