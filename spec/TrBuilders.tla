---------------------------- MODULE TrBuilders ----------------------------
EXTENDS Builders, TraceIO
VARIABLES i, st, skip, bad
ResetB(e) == BuildInit(e.impl)
InvB(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetB, Inv <- InvB,
                        Outcomes <- BuildOutcomes, SetFields <- BuildSetFields
=============================================================================
