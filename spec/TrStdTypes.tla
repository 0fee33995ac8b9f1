---------------------------- MODULE TrStdTypes ----------------------------
EXTENDS StdTypes, TraceIO
VARIABLES i, st, skip, bad
ResetStd(e) == StdInit(e.impl)
InvStd(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetStd, Inv <- InvStd,
                        Outcomes <- StdOutcomes, SetFields <- StdSetFields
=============================================================================
