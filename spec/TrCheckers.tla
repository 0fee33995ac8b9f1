---------------------------- MODULE TrCheckers ----------------------------
EXTENDS Checkers, TraceIO
VARIABLES i, st, skip, bad
ResetChk(e) == ChkInit(e.impl)
InvChk(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetChk, Inv <- InvChk,
                        Outcomes <- ChkOutcomes, SetFields <- ChkSetFields
=============================================================================
