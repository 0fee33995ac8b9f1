-------------------------- MODULE TrInteractions --------------------------
EXTENDS Interactions, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == InterInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- InterInv,
                        Outcomes <- InterOutcomes, SetFields <- InterSetFields
=============================================================================
