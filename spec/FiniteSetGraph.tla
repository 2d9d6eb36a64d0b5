-------------------------- MODULE FiniteSetGraph --------------------------
(* Writes the complete transition graph of FiniteSet for conformance. *)
EXTENDS FiniteSet, TLC, Json, CSV, IOUtils

View == s
Emit == CSVWrite("%1$s", <<ToJson([s |-> s, e |-> ev', r |-> res', t |-> s'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> s, o |-> Observe(s), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
