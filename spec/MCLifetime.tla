----------------------------- MODULE MCLifetime -----------------------------
(* Two objects, their proxies and a checker in every graph that can be      *)
(* built by linking, reading, writing and dropping.                         *)
EXTENDS Lifetime
CONSTANT Big
VARIABLES st, last

TheSetup ==
  <<[op |-> "obj", id |-> "o1", type |-> "T0"], [op |-> "obj", id |-> "o2", type |-> "T1"],
    [op |-> "table", id |-> "t", grant |-> <<"a">>], [op |-> "table", id |-> "u", grant |-> <<>>],
    [op |-> "std", id |-> "c", get |-> "t", set |-> "t", how |-> ""],
    [op |-> "std", id |-> "d", get |-> "u", set |-> "u", how |-> "sub"],
    [op |-> "comb", id |-> "k", a |-> "d", b |-> "c"],
    [op |-> "drop", n |-> "u"], [op |-> "drop", n |-> "d"],
    [op |-> "proxy", id |-> "p1", of |-> "o1", c |-> "c"], [op |-> "proxy", id |-> "p2", of |-> "o2", c |-> "k"]>>

Free(s, id) == id \notin DOMAIN s.nodes
Held(s) == s.held \ {"DEFAULT"}
H(s, S) == S \cap s.held
TheCalls(s) ==
  {[op |-> "link", n |-> n, slot |-> "a", to |-> m] : n \in H(s, {"o1"}), m \in H(s, IF Big THEN {"o2", "p1", "p2", "c"} ELSE {"o2", "p1"})}
  \cup {[op |-> "link", n |-> n, slot |-> "a", to |-> m] : n \in H(s, {"o2"}), m \in H(s, {"p1"})}
  \cup {[op |-> "link", n |-> n, slot |-> "x", to |-> m] : n \in H(s, {"t"}), m \in H(s, {"o1"})}
  \cup {[op |-> "unlink", n |-> n, slot |-> "a"] : n \in H(s, {"o1"})}
  \cup {[op |-> "drop", n |-> n] : n \in Held(s)}
  \cup {[op |-> "read", p |-> p, name |-> n, res |-> "r", err |-> IF Free(s, "e") THEN "e" ELSE ""] :
           p \in H(s, {"p1"}), n \in IF Free(s, "r") THEN {"a", "x"} ELSE {}}
  \cup {[op |-> "write", p |-> p, name |-> "a", to |-> m, err |-> ""] : p \in H(s, {"p1"}), m \in H(s, IF Big THEN {"p2"} ELSE {}) \cup {""}}
  \cup {[op |-> "inside", p |-> p, slot |-> "object"] : p \in H(s, {"p1", "r"})}
  \cup {[op |-> "define", type |-> "T1", c |-> c] : c \in H(s, IF Big THEN {"c"} ELSE {})}
  \cup {[op |-> "undefine", type |-> t] : t \in DOMAIN s.reg}
  \cup {[op |-> "gc"]}
TheKey(s) == [n |-> s.nodes, h |-> s.held, r |-> s.reg]
INSTANCE MCBase WITH InitOf <- LifInit, Outcomes <- LifOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey
LifView == TheKey(st)

ev == last'.e
ob == last'.obs
Cyclic(s, n) == n \in Reach(s, RefsOf(s, n))
C22 ==
  \* what can be reached is in memory, and a proxy has all that it needs
  /\ Reach(st', Roots(st')) \subseteq DOMAIN st'.nodes
  /\ \A n \in Kinds(st', {"proxy"}) :
       LET x == Through(st', n) IN
       {x.o, x.c} \subseteq DOMAIN st'.nodes /\ st'.nodes[x.o].k \in {"obj", "std", "comb"} /\ st'.nodes[x.c].k \in {"std", "comb"}
  \* what cannot be reached is only there because of a cycle
  /\ \A n \in (DOMAIN st'.nodes) \ Reach(st', Roots(st')) :
       \E m \in (DOMAIN st'.nodes) \ Reach(st', Roots(st')) : Cyclic(st', m) /\ (n = m \/ n \in Reach(st', {m}))
  \* and the collector sees to that
  /\ ev.op = "gc" => DOMAIN st'.nodes = Reach(st', Roots(st'))
  \* no call takes away what the program holds, and nothing comes back
  /\ ev.op # "drop" => st.held \subseteq st'.held
  /\ (DOMAIN st'.nodes) \ (DOMAIN st.nodes) \subseteq {"r", "e"}
  \* a refused call that leaves no exception changes no lifetime at all
  /\ ob.r \in {"unauth", "forbid"} /\ (ev.err = "") => st' = st
  \* nothing raw is handed out
  /\ ev.op = "read" /\ ob.r = "ok" => ob.arg = "new" \/ st.nodes[ob.arg].k = "proxy"

Props == [][C22]_mcvars
=============================================================================
