------------------------------ MODULE MCMarker ------------------------------
(* The marker and everything like it: all journeys of up to two legs, and   *)
(* every way of asking under every kind of interaction.                     *)
EXTENDS Marker
VARIABLES st, last

KindSeq == <<"id", "name", "sub", "eqall", "inner", "global", "reproxied", "doubly", "samechecker", "pstr", "perm", "true",
             "int", "empty", "list", "noproxy", "class", "proxytype", "module", "spoof", "falsy">>
TheSetup == [k \in 1..Len(KindSeq) |-> [op |-> "make", id |-> KindSeq[k], kind |-> KindSeq[k]]]
Pols == {"none", "permissive", "paranoid", "paranoid-system", "paranoid-user", "paranoid-both", "all", "nothing"}
First == "x"
Second == "y"
TheCalls(s) ==
  {[op |-> "travel", v |-> v, how |-> h, id |-> First] : v \in {"M"} \cup Kinds, h \in Routes}
  \cup {[op |-> "travel", v |-> "M", how |-> "remove", id |-> First]}
  \cup {[op |-> "travel", v |-> First, how |-> h, id |-> Second] : h \in IF First \in DOMAIN s.vals THEN Routes ELSE {}}
  \cup {[op |-> "pol", kind |-> k] : k \in Pols}
  \cup {[op |-> "ask", v |-> v, how |-> h] : v \in DOMAIN s.vals, h \in (Checking \cup Predicting \cup Asking) \ {"declared"}}
  \cup {[op |-> "ask", v |-> v, how |-> "declared"] : v \in {"M", "id", "name", "perm"}}
TheKey(s) == [v |-> s.vals, p |-> s.pol]
INSTANCE MCBase WITH InitOf <- MkInit, Outcomes <- MkOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey
MkView == TheKey(st)

ev == last'.e
ob == last'.obs
C24 ==
  \* it grants whatever the interaction, and nobody is asked
  /\ ev.op = "ask" /\ st.vals[ev.v] = PUBLIC /\ ev.how # "policy" => ob.r = "ok" /\ ob.asked = {}
  /\ ev.op = "ask" /\ st.vals[ev.v] = PUBLIC /\ st.pol \in {"permissive", "paranoid", "paranoid-user", "paranoid-both"} => ob.r = "ok"
  \* nothing else does when the interaction refuses
  /\ ev.op = "ask" /\ st.vals[ev.v] = "other" /\ st.pol \in {"nothing", "paranoid-user", "paranoid-both", "none"} => ob.r # "ok"
  /\ ev.op = "ask" /\ st.vals[ev.v] = "id" /\ ev.how # "declared" /\ st.pol \in {"nothing", "paranoid-user", "none"} => ob.r # "ok"
  \* it stays itself, and nothing becomes it
  /\ ev.op = "travel" /\ ev.how # "remove" => ((ob.r = PUBLIC) = (st.vals[ev.v] = PUBLIC))
  /\ \A v \in Kinds : st'.vals[v] # PUBLIC

Props == [][C24]_mcvars
=============================================================================
