---------------------------- MODULE MCDecorators ----------------------------
(* Stacks of decorators, location proxies and security proxies.             *)
EXTENDS Decorators
VARIABLES st, last

M(a, b, c) == Put(Put(Put(Empty, "a", a), "b", b), "c", c)
Base ==
  <<[op |-> "table", id |-> "t", map |-> M("PUBLIC", "p", "NONE")], [op |-> "table", id |-> "u", map |-> M("p", "q", "q")],
    [op |-> "std", id |-> "k", get |-> "t", set |-> "u", how |-> ""], [op |-> "std", id |-> "m", get |-> "u", set |-> "t", how |-> "falsy"],
    [op |-> "obj", id |-> "o1", own |-> "", entry |-> ""], [op |-> "obj", id |-> "o2", own |-> "k", entry |-> "m"],
    [op |-> "obj", id |-> "o3", own |-> "NONE", entry |-> "m"], [op |-> "obj", id |-> "o4", own |-> "", entry |-> "NOPROXY"],
    [op |-> "obj", id |-> "o5", own |-> "boom", entry |-> ""],
    [op |-> "sec", id |-> "o6", of |-> "o3", c |-> "k"], [op |-> "sec", id |-> "o7", of |-> "o4", c |-> "DEFAULT"]>>
Objs == <<"o1", "o2", "o3", "o4", "o5", "o6", "o7">>
\* each of objs decorated in every way of ents, and in a location proxy
On(objs, ents, d, l) ==
  LET n == Len(ents) + 1 IN
  [k \in 1..(Len(objs) * n) |->
     LET o == objs[((k - 1) \div n) + 1]
         j == ((k - 1) % n) + 1 IN
     IF j = n THEN [op |-> "loc", id |-> l \o o, of |-> o]
     ELSE [op |-> "dec", id |-> d \o ToString(j) \o o, of |-> o, entry |-> ents[j], attrs |-> <<"c">>, how |-> "base"]]
Ones == On(Objs, <<"", "k", "m", "NOPROXY">>, "d", "l")
OneSeq == [k \in 1..Len(Ones) |-> Ones[k].id]
OneIds == ToSet(OneSeq)
Twos == On(OneSeq, <<"", "k", "NOPROXY">>, "D", "L")
Nodes == OneIds \cup ToSet(Objs) \cup {Twos[k].id : k \in 1..Len(Twos)}
TheSetup == Base \o Ones \o Twos
Secs == {"o6", "o7"}
TheCalls(s) ==
  {[op |-> "attr", n |-> n] : n \in Nodes \ Secs}
  \cup {[op |-> o, n |-> n, kind |-> k, name |-> m] : o \in {"dcheck", "daccess"}, n \in Nodes, k \in {"get", "set"}, m \in {"a", "b"}}
  \cup {[op |-> "daccess", n |-> n, kind |-> "get", name |-> "c"] : n \in Nodes}
  \cup {[op |-> "assign", n |-> n, how |-> "set"] : n \in OneIds}
  \cup {[op |-> "defloc", entry |-> x] : x \in {"m", "NOPROXY"} \ {s.loc}}
  \cup {[op |-> "policy", kind |-> k, grant |-> <<"p">>, fail |-> <<>>] : k \in {"table"}}
TheKey(s) == [loc |-> s.loc, pol |-> s.policy]
INSTANCE MCBase WITH InitOf <- DecInit, Outcomes <- DecOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey
DecView == TheKey(st)

ev == last'.e
ob == last'.obs
X == st.nodes[ev.n]
Grants(c, kind, name, o) == c \notin {"none", "boom"} /\ Decide(st, c, kind, name, o).v = "ok"
Under == Protecting(st, X.of)
C20 ==
  /\ ev.op \in {"dcheck"} /\ X.k \in {"dec", "loc"} /\ Under.c # "boom" =>
       LET w == Entry(EntryOf(st, X)) IN
       \* (a failing policy is no refusal)
       (w # "none" => Decide(st, w, ev.kind, ev.name, ev.n).v # "error") => (ob.r = "ok") = (Grants(w, ev.kind, ev.name, ev.n)
                        \/ (Under.c # "none" /\ Decide(Under.st, Under.c, ev.kind, ev.name, ev.n).v = "ok"))
  \* what is granted through the proxy is granted by its checker
  /\ ev.op = "daccess" /\ ob.r = "ok" => LET p == Protecting(st, ev.n) IN Decide(p.st, p.c, ev.kind, ev.name, Asked(st, ev.n)).v = "ok"
  /\ ev.op = "attr" /\ X.k = "dec" /\ Under.c # "boom" =>
       /\ (ob.r = "absent") = (X.entry = "NOPROXY" /\ Under.c = "none")
       /\ X.entry # "NOPROXY" /\ Under.c # "none" => ob.r = "combined"
       /\ X.entry # "NOPROXY" /\ Under.c = "none" => ob.arg = Entry(X.entry)
       /\ X.entry = "NOPROXY" /\ Under.c # "none" =>
            IF Under.c \in DOMAIN st.checkers THEN ob.arg = Under.c ELSE ob.r = "combined"
  /\ ev.op = "assign" => ob.r = "error" /\ st' = st

Props == [][C20]_mcvars
=============================================================================
