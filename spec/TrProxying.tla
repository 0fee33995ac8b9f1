---------------------------- MODULE TrProxying ----------------------------
EXTENDS Proxying, TraceIO
VARIABLES i, st, skip, bad
ResetPrx(e) == PrxInit(e.impl)
InvPrx(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetPrx, Inv <- InvPrx,
                        Outcomes <- PrxOutcomes, SetFields <- PrxSetFields
=============================================================================
