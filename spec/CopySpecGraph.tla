--------------------------- MODULE CopySpecGraph --------------------------
(* Writes the complete transition graph of CopySpec for conformance. *)
EXTENDS CopySpec, TLC, Json, CSV, IOUtils

View == St
Emit == CSVWrite("%1$s", <<ToJson([s |-> St, e |-> ev', r |-> res', t |-> St'])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> St, o |-> Observe, i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
