------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* The recorded execution: one JSON object per line, written by a driver   *)
(* that performs each call on the real code.  A line has the call (field   *)
(* `op' and its arguments) and what was observed (field `obs').            *)
(***************************************************************************)
EXTENDS Json, IOUtils, Sequences, Naturals, TLC

TheTrace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
