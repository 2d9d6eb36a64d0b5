--------------------------- MODULE ListSpecGraph --------------------------
(* Writes the complete transition graph of ListSpec for conformance. *)
EXTENDS ListSpec, TLC, Json, CSV, IOUtils

View == L
Emit == CSVWrite("%1$s", <<ToJson([s |-> L, e |-> ev', r |-> res', t |-> L'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> L, o |-> Observe(L), i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
