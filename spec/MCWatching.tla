----------------------------- MODULE MCWatching -----------------------------
(* Plain checkers of every verbosity, combined ones, and every decision.    *)
EXTENDS Watching
VARIABLES st, last

Obj(id, c, how) == [op |-> "object", id |-> id, iter |-> FALSE, item |-> FALSE, checker |-> c, repr |-> how]
W(id, v) == [op |-> "wstd", id |-> id, get |-> "g", set |-> "s", verb |-> v, how |-> "class"]
Two(id, a, b) == [op |-> "comb", id |-> id, a |-> a, b |-> b]
Map == Put(Put(Empty, "a", "p"), "b", "q")
TheSetup ==
  <<[op |-> "watch", env |-> "2"],
    [op |-> "table", id |-> "g", map |-> Empty], [op |-> "table", id |-> "s", map |-> Empty],
    [op |-> "table", id |-> "m", map |-> Map],
    [op |-> "std", id |-> "c", get |-> "g", set |-> "s"], [op |-> "std", id |-> "d", get |-> "m", set |-> "m"],
    W("w0", 0), W("w1", 1), W("w2", 2),
    [op |-> "user", id |-> "uo", rget |-> "ok", rset |-> "unauth"],
    [op |-> "user", id |-> "uf", rget |-> "forbid", rset |-> "boom"],
    Two("k", "c", "d"), Two("kw", "w1", "w2"), Two("kk", "k", "kw"), Two("ku", "uf", "c"), Two("kv", "w2", "uo"),
    Obj("o1", "c", ""), Obj("o2", "kw", "own"), Obj("o3", "DEFAULT", "fails")>>
Cs == {"c", "d", "w0", "w1", "w2", "uo", "uf", "k", "kw", "kk", "ku", "kv"}
TheCalls(s) ==
  {[op |-> "entry", id |-> t, name |-> "a", perm |-> p] : t \in {"g", "s"}, p \in {PUBLIC, "p"}}
  \cup {[op |-> "noentry", id |-> t, name |-> "a"] : t \in {"g", "s"}}
  \cup {[op |-> "policy", kind |-> "none", grant |-> <<>>, fail |-> <<>>]}
  \cup {[op |-> "policy", kind |-> "table", grant |-> g, fail |-> f] : g \in {<<>>, <<"p">>, <<"q">>}, f \in {<<>>, <<"p">>}}
  \cup {[op |-> "check", c |-> c, kind |-> k, name |-> n, o |-> "o1"] :
          c \in Cs, k \in {"check", "getattr", "setattr"}, n \in {"a", "b", "__name__"}}
  \cup {[op |-> "access", o |-> o, name |-> n, kind |-> k] : o \in {"o1", "o2", "o3"}, n \in {"a", "b"}, k \in {"get", "set"}}
  \cup {[op |-> w, o |-> o, name |-> n, form |-> f] :
          w \in {"canaccess", "canwrite"}, o \in {"o1", "o2", "o3"}, n \in {"a", "b"}, f \in {"bare", "proxied"}}
TheKey(s) == <<s.tables, s.policy>>
INSTANCE MCBase WITH InitOf <- WatInit, Outcomes <- WatOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey
WatView == TheKey(st)

ev == last'.e
ob == last'.obs
Judged == ev.op \in {"check", "access", "canaccess", "canwrite"}
NoLog(o) == [f \in DOMAIN o \ {"log"} |-> o[f]]
At(lv) == CHOOSE r \in WatOutcomes([st EXCEPT !.level = lv], ev) : TRUE
Kind == CASE ev.op \in {"access", "canaccess", "canwrite"} -> "get" [] ev.kind = "setattr" -> "set" [] ev.kind = "getattr" -> "get" [] OTHER -> "op"

C21 == Judged =>
  \* the verbosity changes nothing but the report
  /\ \A lv \in 0..3 : NoLog(At(lv).obs) = NoLog(ob) /\ At(lv).st = [st EXCEPT !.level = lv]
  \* a higher one reports no less
  /\ \A lv \in 0..2 : At(lv).obs.log \subseteq At(lv + 1).obs.log
  \* nothing is reported about what did not happen
  /\ \A m \in ob.log : \E k \in {"unauth", "forbid", "granted"} : m = k \o ":" \o ev.name \o ":" \o ev.o
  /\ ev.op = "check" =>
       LET t == st.checkers[ev.c].t
           me == {x \in {"unauth", "forbid"} : x = ob.r} IN
       /\ t = "std" =>
            LET v == Verb(st, ev.c) IN
            ob.log = {k \o ":" \o ev.name \o ":" \o ev.o : k \in (IF v >= 1 THEN me ELSE {}) \cup (IF v > 1 /\ ob.r = "ok" THEN {"granted"} ELSE {})}
       /\ t = "user" => ob.log = {}
       \* a refusal of a combination of watched checkers is reported
       /\ ev.c \in {"k", "kw", "kk"} /\ me # {} => (ob.r \o ":" \o ev.name \o ":" \o ev.o) \in ob.log

Props == [][C21]_mcvars
=============================================================================
