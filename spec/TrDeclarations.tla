-------------------------- MODULE TrDeclarations --------------------------
EXTENDS Declarations, TraceIO
VARIABLES i, st, skip, bad
ResetDecl(e) == DeclInit(e.impl)
InvDecl(s) == TRUE
INSTANCE TraceBase WITH Trace <- TheTrace, ResetSt <- ResetDecl, Inv <- InvDecl,
                        Outcomes <- DeclOutcomes, SetFields <- DeclSetFields
=============================================================================
