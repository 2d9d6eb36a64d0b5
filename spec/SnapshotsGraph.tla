-------------------------- MODULE SnapshotsGraph --------------------------
(* Writes the complete transition graph of Snapshots for conformance. *)
EXTENDS Snapshots, TLC, Json, CSV, IOUtils

View == <<m, sn, it>>
Emit == CSVWrite("%1$s", <<ToJson([s |-> <<m, sn, it>>, e |-> ev', r |-> res', t |-> <<m', sn', it'>>])>>, IOEnv.OUT)
Obs  == CSVWrite("%1$s", <<ToJson([s |-> <<m, sn, it>>, o |-> ObserveS, i |-> TLCGet("level")])>>, IOEnv.OUT)
===========================================================================
