-------------------------- MODULE FiniteMapGraph --------------------------
(* Writes the complete transition graph of FiniteMap for conformance.        *)
EXTENDS FiniteMap, TLC, Json, CSV, IOUtils

View == m
Emit == CSVWrite("%1$s", <<ToJson([s |-> m, e |-> ev', r |-> res', t |-> m'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> m, o |-> Observe(m), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
