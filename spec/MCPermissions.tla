--------------------------- MODULE MCPermissions ---------------------------
(* All registrations of three ids in the global and a local context.        *)
EXTENDS Permissions
VARIABLES st, last

TheIds == {"zope.Public", "a", "B"}
TheSetup == <<[op |-> "id", id |-> "zope.Public", cps |-> <<122, 111, 112, 101, 46, 80, 117, 98, 108, 105, 99>>], [op |-> "id", id |-> "a", cps |-> <<97>>],
              [op |-> "id", id |-> "B", cps |-> <<66>>],
              [op |-> "perm", p |-> "p", id |-> "a", title |-> "P", desc |-> "", how |-> "plain"],
              [op |-> "perm", p |-> "q", id |-> "x", title |-> "", desc |-> "d", how |-> "falsy"],
              [op |-> "ctx", c |-> "L", up |-> ""]>>
Of(s, id, c) == IF id = "a" THEN IF c = "" THEN {"p"} ELSE {"q"} ELSE {"made " \o id}
TheCalls(s) ==
  {[op |-> "reg", c |-> c, id |-> "a", p |-> p] : c \in {"", "L"}, p \in {"p", "q"}}
  \cup {[op |-> "reg", c |-> c, id |-> "B", p |-> "q"] : c \in {"", "L"}}
  \cup {[op |-> "zcml", id |-> "zope.Public", title |-> "T", desc |-> ""]}
  \cup {[op |-> "unreg", c |-> c, id |-> id] : c \in {"", "L"}, id \in TheIds}
  \cup {[op |-> "site", c |-> c] : c \in {"", "L"}}
  \cup {[op |-> "check", c |-> c, id |-> id] : c \in {"", "L", "NONE"}, id \in TheIds}
  \cup {[op |-> "checkpublic", c |-> c] : c \in {"", "L", "NONE"}}
  \cup {[op |-> "list", c |-> c] : c \in {"", "L", "NONE"}}
  \cup {[op |-> o, c |-> c, util |-> FALSE] : o \in {"vocab", "idvocab"}, c \in {"", "L", "NONE"}}
  \cup {[op |-> "read", c |-> "L", id |-> id] : id \in TheIds}
TheKey(s) == [regs |-> s.regs, site |-> s.site]
INSTANCE MCBase WITH InitOf <- PermInit, Outcomes <- PermOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"mc"}, Key <- TheKey
PermView == TheKey(st)

ev == last'.e
ob == last'.obs
Seen(c) == {id \in TheIds : id \in DOMAIN st.regs[""] \/ (Where(st, c) = "L" /\ id \in DOMAIN st.regs["L"])}
At(q, k, id) == q[k] = id \o "|" \o id \o "|" \o id
C18 ==
  /\ ev.op = "check" => (ob.r = "done") = (ev.id \in Seen(ev.c))
  /\ ev.op = "checkpublic" => ob.r = "done"
  /\ ev.op = "list" => ob.set = Seen(ev.c) \ {"zope.Public"} /\ ob.n = ToString(Cardinality(ob.set))
  /\ ev.op = "vocab" /\ ob.r # "error" => ob.n = ToString(Cardinality(Seen(ev.c)))
  /\ ev.op = "idvocab" =>
       LET q == ob.seq
           p == "zope.Public" \in Seen(ev.c) IN
       /\ Len(q) = Cardinality(Seen(ev.c))
       /\ p => q[1] = "zope.Public|Public|PUBLIC"
       /\ LET k == IF p THEN 2 ELSE 1 IN
          /\ "B" \in Seen(ev.c) => At(q, k, "B")
          /\ "a" \in Seen(ev.c) => At(q, IF "B" \in Seen(ev.c) THEN k + 1 ELSE k, "a")
  /\ ev.op \notin {"reg", "unreg", "zcml", "site"} => st' = st

Props == [][C18]_mcvars
=============================================================================
