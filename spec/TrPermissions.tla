-------------------------- MODULE TrPermissions --------------------------
EXTENDS Permissions, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == PermInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- PermInv,
                        Outcomes <- PermOutcomes, SetFields <- PermSetFields
=============================================================================
