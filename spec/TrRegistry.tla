---------------------------- MODULE TrRegistry ----------------------------
EXTENDS Registry, TraceIO
VARIABLES i, st, skip, bad
ResetReg(e) == RegInit(e.impl)
InvReg(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetReg, Inv <- InvReg,
                        Outcomes <- RegOutcomes, SetFields <- RegSetFields
=============================================================================
