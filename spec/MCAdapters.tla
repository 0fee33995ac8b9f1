----------------------------- MODULE MCAdapters -----------------------------
(* All factories with every kind of adapter and up to three arguments.      *)
EXTENDS Adapters
VARIABLES st, last

Kinds == <<"trusted", "loctrusted", "locuntrusted">>
Makes == <<"plain", "free", "child", "rock", "ARG", "boom">>
FId(k, m) == k \o "-" \o m
TheSetup ==
  <<[op |-> "obj", o |-> "o", reads |-> <<"x">>, how |-> "plain"], [op |-> "obj", o |-> "q", reads |-> <<"y">>, how |-> "falsy"],
    [op |-> "adapter", a |-> "plain", loc |-> FALSE, parent |-> "none", reads |-> <<"x">>, rock |-> FALSE, how |-> "plain"],
    [op |-> "adapter", a |-> "free", loc |-> TRUE, parent |-> "none", reads |-> <<"x", "y">>, rock |-> FALSE, how |-> "class"],
    [op |-> "adapter", a |-> "child", loc |-> TRUE, parent |-> "q", reads |-> <<>>, rock |-> FALSE, how |-> "direct"],
    [op |-> "adapter", a |-> "rock", loc |-> FALSE, parent |-> "none", reads |-> <<>>, rock |-> TRUE, how |-> "int"]>>
  \o [k \in 1..18 |-> LET kind == Kinds[((k - 1) \div 6) + 1]
                          m == Makes[((k - 1) % 6) + 1] IN
                      [op |-> "factory", f |-> FId(kind, m), kind |-> kind, makes |-> m, name |-> "F", mod |-> "some.where"]]
A(o, p) == [o |-> o, p |-> p]
Singles == {<<A(o, p)>> : o \in {"o", "q"}, p \in BOOLEAN}
Pairs == {<<A("o", p), A("q", r)>> : p, r \in BOOLEAN}
Triples == {<<A("q", p), A("o", r), A("q", s)>> : p, r, s \in BOOLEAN}
TheCalls(s) == {[op |-> "call", f |-> f, args |-> as] : f \in DOMAIN s.facs, as \in Singles \cup Pairs \cup Triples}
TheKey(s) == [free |-> s.adap["free"].parent]
INSTANCE MCBase WITH InitOf <- AdInit, Outcomes <- AdOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"mc"}, Key <- TheKey
AdView == TheKey(st)

ev == last'.e
ob == last'.obs
F == st.facs[ev.f]
Some == \E k \in 1..Len(ev.args) : ev.args[k].p
AsGiven == [k \in 1..Len(ev.args) |-> Ref(ev.args[k])]
AllBare == [k \in 1..Len(ev.args) |-> ev.args[k].o]
C19 == ev.op = "call" =>
  /\ F.kind # "locuntrusted" /\ Some => ob.got = AllBare
  /\ F.kind = "locuntrusted" \/ ~Some => ob.got = AsGiven
  /\ ob.r = "ok" =>
      /\ F.kind # "locuntrusted" /\ ~Some => ob.reads = All /\ ob.form \in {":" \o F.makes, ":" \o ev.args[1].o}
      /\ F.kind # "locuntrusted" /\ Some /\ F.makes # "rock" => ob.reads # All
      /\ F.kind = "locuntrusted" /\ F.makes # "ARG" => ob.reads = All
      /\ F.makes = "child" => ob.parent = "q"
      /\ F.makes = "free" => ob.parent = IF st.adap["free"].parent # "none" THEN st.adap["free"].parent ELSE ob.got[1]
      /\ F.makes \in {"plain", "rock", "ARG"} =>
           ob.parent = IF F.kind = "locuntrusted" \/ (F.kind = "loctrusted" /\ Some) THEN ob.got[1] ELSE "-"
  /\ st'.adap # st.adap => F.makes = "free" /\ st.adap["free"].parent = "none"

Props == [][C19]_mcvars
=============================================================================
