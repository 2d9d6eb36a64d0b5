-------------------------- MODULE MapAlgebraGraph -------------------------
(* Writes the complete transition graph of MapAlgebra for conformance. *)
EXTENDS MapAlgebra, TLC, Json, CSV, IOUtils

View == h
Emit == CSVWrite("%1$s", <<ToJson([s |-> h, e |-> ev', r |-> res', t |-> h'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> h, o |-> Observe(h), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
