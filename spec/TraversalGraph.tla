------------------------- MODULE TraversalGraph ---------------------------
(* Writes every traversal of every tree with its result. *)
EXTENDS Traversal, TLC, Json, CSV, IOUtils

View == m
Emit == CSVWrite("%1$s", <<ToJson([s |-> m, e |-> ev', r |-> res', t |-> m'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> m, o |-> Observe, i |-> TLCGet("level")])>>, IOEnv.OUT)
============================================================================
