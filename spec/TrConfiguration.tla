-------------------------- MODULE TrConfiguration --------------------------
EXTENDS Configuration, TraceIO
VARIABLES i, st, skip, bad
ResetC(e) == ConfInit(e.impl)
InvC(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetC, Inv <- InvC,
                        Outcomes <- ConfOutcomes, SetFields <- ConfSetFields
=============================================================================
