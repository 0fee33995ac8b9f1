-------------------------- MODULE TrDecorators --------------------------
EXTENDS Decorators, TraceIO
VARIABLES i, st, skip, bad
ResetI(e) == DecInit(e.impl)
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetI, Inv <- DecInv,
                        Outcomes <- DecOutcomes, SetFields <- DecSetFields
=============================================================================
