----------------------------- MODULE TraceData -----------------------------
(* The recorded behaviours, one session per line. Kept apart so that TLC     *)
(* evaluates it once.                                                        *)
EXTENDS Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
