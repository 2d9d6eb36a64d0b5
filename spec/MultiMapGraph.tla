-------------------------- MODULE MultiMapGraph ---------------------------
(* Writes the complete transition graph of MultiMap for conformance. *)
EXTENDS MultiMap, TLC, Json, CSV, IOUtils

View == c
Emit == CSVWrite("%1$s", <<ToJson([s |-> c, e |-> ev', r |-> res', t |-> c'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> c, o |-> Observe(c), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
