--------------------------- MODULE UniquePQGraph --------------------------
(* Writes the complete transition graph of UniquePQ for conformance. *)
EXTENDS UniquePQ, TLC, Json, CSV, IOUtils

View == pr
Emit == CSVWrite("%1$s", <<ToJson([s |-> pr, e |-> ev', r |-> res', t |-> pr'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> pr, o |-> Observe(pr), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
