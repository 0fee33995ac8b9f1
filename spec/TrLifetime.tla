-------------------------- MODULE TrLifetime --------------------------
EXTENDS Lifetime, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == LifInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- LifInv,
                        Outcomes <- LifOutcomes, SetFields <- LifSetFields
=============================================================================
