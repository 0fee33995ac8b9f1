--------------------------- MODULE MCDeclarations ---------------------------
(* All declarations for a class, its subclass and an unrelated class.       *)
EXTENDS Declarations
CONSTANTS Part
VARIABLES st, last

TheSetup == <<
  [op |-> "class", id |-> "A", base |-> ""], [op |-> "class", id |-> "B", base |-> "A"],
  [op |-> "class", id |-> "C", base |-> ""],
  [op |-> "cell", id |-> "k", how |-> "names", get |-> [x |-> "PUBLIC"], set |-> Empty],
  [op |-> "grant", perms |-> <<"q">>] >>
CanGet == IF Part = "get" THEN {"x", "y"} ELSE {"x"}
CanSet == IF Part = "get" THEN {} ELSE {"x"}
Cs == {"A", "B"}
Perms == IF Part = "get" THEN {"p", "zope.Public"} ELSE {"p", "q"}
TheCalls(s) ==
  {[op |-> "protect", c |-> c, kind |-> "get", name |-> n, perm |-> p] : c \in Cs, n \in CanGet, p \in Perms}
  \cup {[op |-> "protect", c |-> c, kind |-> "set", name |-> n, perm |-> p] : c \in Cs, n \in CanSet, p \in Perms}
  \cup {[op |-> "like", c |-> c, other |-> d] : c \in Cs, d \in Cs \cup {"C"}}
  \cup {[op |-> "undefine", c |-> c] : c \in Cs}
  \cup {[op |-> "define", c |-> c, cell |-> "k"] : c \in Cs}
  \cup {[op |-> "probe", c |-> c, kind |-> k, name |-> n] : c \in Cs \cup {"C"}, k \in {"get", "set"},
        n \in {"x", "y", "__class__"}}
  \cup {[op |-> "dump", c |-> c] : c \in Cs \cup {"C"}}

\* Cells that nobody uses any more do not matter.
Clean(s) == <<[c \in DOMAIN s.reg |-> s.cells[s.reg[c]]],
              s.cells["k"], {c \in DOMAIN s.reg : s.reg[c] = "k"}, s.grant>>
TheKey(s) == Clean(s)
INSTANCE MCBase WITH InitOf <- DeclInit, Outcomes <- DeclOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey
DeclView == Clean(st)

ev == last'.e
ob == last'.obs
Dec(s, c, k, n) == Decision(s, c, k, n)
Ns == {"x", "y", "__class__", "z"}
Shared(c, d) == c \in DOMAIN st.reg /\ d \in DOMAIN st.reg /\ st.reg[c] = st.reg[d]
C10 ==
  /\ ev.op = "protect" =>
       /\ LET d == Dec(st', ev.c, ev.kind, ev.name) IN
          IF ev.perm = PublicId THEN d.r = "ok" ELSE (d.r = "ok") = (ev.perm \in st.grant)
       /\ \A c \in st.classes, k \in {"get", "set"}, n \in Ns :
            (c # ev.c /\ ~Shared(c, ev.c)) \/ k # ev.kind \/ n # ev.name => Dec(st', c, k, n) = Dec(st, c, k, n)
  /\ ev.op = "like" =>
       /\ ev.other \notin DOMAIN st.reg => st' = st
       /\ \A k \in {"get", "set"}, n \in Ns :
            LET t == IF k = "get" THEN Tables(st, ev.other).get ELSE Tables(st, ev.other).set IN
            Dec(st', ev.c, k, n) = IF n \in DOMAIN t THEN Dec(st, ev.other, k, n) ELSE Dec(st, ev.c, k, n)
       /\ \A c \in st.classes, k \in {"get", "set"}, n \in Ns :
            c # ev.c /\ ~Shared(c, ev.c) => Dec(st', c, k, n) = Dec(st, c, k, n)
       /\ ev.c \notin DOMAIN st.reg /\ ev.c \in DOMAIN st'.reg => ~Shared(ev.c, ev.other) /\ st'.reg[ev.c] # st'.reg[ev.other]
  /\ ev.op \in {"probe", "dump"} => st' = st

Props == [][C10]_mcvars
=============================================================================
