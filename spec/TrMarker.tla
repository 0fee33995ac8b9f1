-------------------------- MODULE TrMarker --------------------------
EXTENDS Marker, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == MkInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- MkInv,
                        Outcomes <- MkOutcomes, SetFields <- MkSetFields
=============================================================================
