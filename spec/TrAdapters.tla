-------------------------- MODULE TrAdapters --------------------------
EXTENDS Adapters, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == AdInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- AdInv,
                        Outcomes <- AdOutcomes, SetFields <- AdSetFields
=============================================================================
