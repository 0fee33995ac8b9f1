----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Trace validation with a total verdict.  The specification under which   *)
(* the trace is judged supplies ResetSt(e), the state at the start of an   *)
(* episode, and Outcomes(st, e), the set of [st |-> .., obs |-> ..] the    *)
(* specification allows for call e in state st.  A call whose observation  *)
(* is none of these is reported, and judging resumes at the next episode.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Trace, ResetSt(_), Outcomes(_, _), SetFields, Inv(_)
VARIABLES i, st, skip, bad

vars == <<i, st, skip, bad>>

Norm(o) == [f \in DOMAIN o |->
              IF f \in SetFields THEN {o[f][k] : k \in 1..Len(o[f])} ELSE o[f]]

TraceInit == i = 1 /\ st = [none |-> TRUE] /\ skip = TRUE /\ bad = 0

Report(e, outs) ==
  PrintT("MISMATCH " \o ToJson([line |-> i, exp |-> {r.obs : r \in outs}]))

InvReport == PrintT("INVFAIL " \o ToJson([line |-> i]))

TraceNext ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.op = "reset"
     THEN st' = ResetSt(e) /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED <<st, skip, bad>>
     ELSE LET outs == Outcomes(st, e)
              ok == {r \in outs : r.obs = Norm(e.obs)} IN
          IF ok = {}
          THEN Report(e, outs) /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED st
          ELSE LET r == CHOOSE r \in ok : TRUE IN
               /\ st' = r.st
               /\ IF Inv(r.st) THEN skip' = FALSE /\ bad' = bad
                  ELSE InvReport /\ skip' = TRUE /\ bad' = bad + 1

Done == /\ i = Len(Trace) + 1
        /\ PrintT("DONE " \o ToJson([lines |-> Len(Trace), bad |-> bad]))
        /\ i' = i + 1
        /\ UNCHANGED <<st, skip, bad>>

TraceSpec == TraceInit /\ [][TraceNext \/ Done]_vars
=============================================================================
