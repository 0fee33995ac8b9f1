-------------------------- MODULE TrWatching --------------------------
EXTENDS Watching, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == WatInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- WatInv,
                        Outcomes <- WatOutcomes, SetFields <- WatSetFields
=============================================================================
