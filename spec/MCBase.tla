------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* Exhaustive exploration of a specification given by InitOf(impl) and     *)
(* Outcomes(st, e), over the calls Calls(st), from the state reached by    *)
(* the calls in the sequence Setup.  `last' is the last call and what was  *)
(* observed; it is hidden by the view, so it does not multiply states, and *)
(* the properties are action properties over <<st, last, st', last'>>.     *)
(* With EMIT=1 every transition is printed, for scenario generation; Key   *)
(* is what distinguishes states.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
LOCAL INSTANCE SequencesExt
CONSTANTS InitOf(_), Outcomes(_, _), Calls(_), Setup, Impls, Key(_)
VARIABLES st, last

mcvars == <<st, last>>

\* (FoldLeft is evaluated step by step, without recursion)
Run(s, es) == FoldLeft(LAMBDA x, e : TLCEval((CHOOSE r \in Outcomes(x, e) : TRUE).st), s, es)

MCInit == \E impl \in Impls :
            /\ st = Run(InitOf(impl), Setup)
            /\ last = [e |-> [op |-> "start"], obs |-> [r |-> "start"]]
            /\ IF IOEnv.EMIT = "1"
               THEN PrintT("SETUP " \o ToJson([impl |-> impl, s |-> Key(st), es |-> Setup]))
               ELSE TRUE

MCNext == \E e \in Calls(st) : \E r \in Outcomes(st, e) :
            /\ st' = r.st
            /\ last' = [e |-> e, obs |-> r.obs]
            \* evaluates them fully: with a view, TLC leaves lazy values in its queue
            /\ TLCFP(st') = TLCFP(st') /\ TLCFP(last') = TLCFP(last')

MCSpec == MCInit /\ [][MCNext]_mcvars

View == st

Emit == IF IOEnv.EMIT = "1"
        THEN PrintT("EDGE " \o ToJson([s |-> Key(st), e |-> last'.e, o |-> last'.obs, t |-> Key(st')]))
        ELSE TRUE
=============================================================================
