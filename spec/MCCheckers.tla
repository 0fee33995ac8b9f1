----------------------------- MODULE MCCheckers -----------------------------
(***************************************************************************)
(* Bounded exploration of Checkers: one name-based checker with all        *)
(* contents of its tables over a few names, all policies, all objects      *)
(* (Part = "std"), and all pairs and nestings of combined checkers over    *)
(* one name (Part = "comb").                                               *)
(***************************************************************************)
EXTENDS Checkers
CONSTANTS Part, Names, Perms
VARIABLES st, last

E(op) == [op |-> op]
NoSeq == <<>>

Obj(id, iter, item, c) ==
  [op |-> "object", id |-> id, iter |-> iter, item |-> item, checker |-> c]

StdSetup == <<
  [op |-> "table", id |-> "g", map |-> Empty],
  [op |-> "table", id |-> "s", map |-> Empty],
  [op |-> "std", id |-> "c", get |-> "g", set |-> "s"],
  [op |-> "table", id |-> "e", map |-> Empty], [op |-> "std", id |-> "c0", get |-> "e", set |-> "g"],
  Obj("o1", FALSE, FALSE, "c"), Obj("o2", FALSE, TRUE, "c"), Obj("o3", TRUE, FALSE, "c") >>

CombSetup == <<
  [op |-> "table", id |-> "g1", map |-> Empty], [op |-> "table", id |-> "g2", map |-> Empty],
  [op |-> "table", id |-> "s1", map |-> Empty], [op |-> "table", id |-> "s2", map |-> Empty],
  [op |-> "std", id |-> "c1", get |-> "g1", set |-> "s1"],
  [op |-> "std", id |-> "c2", get |-> "g2", set |-> "s2"],
  [op |-> "user", id |-> "uo", rget |-> "ok", rset |-> "unauth"],
  [op |-> "user", id |-> "uu", rget |-> "unauth", rset |-> "forbid"],
  [op |-> "user", id |-> "uf", rget |-> "forbid", rset |-> "boom"],
  [op |-> "user", id |-> "ub", rget |-> "boom", rset |-> "ok"],
  [op |-> "comb", id |-> "k", a |-> "c1", b |-> "c2"],
  [op |-> "comb", id |-> "kl", a |-> "k", b |-> "uu"],
  [op |-> "comb", id |-> "kr", a |-> "c1", b |-> "k"],
  [op |-> "comb", id |-> "kuo", a |-> "c1", b |-> "uo"],
  [op |-> "comb", id |-> "kuu", a |-> "c1", b |-> "uu"],
  [op |-> "comb", id |-> "kuf", a |-> "c1", b |-> "uf"],
  [op |-> "comb", id |-> "kub", a |-> "c1", b |-> "ub"],
  [op |-> "comb", id |-> "uok", a |-> "uo", b |-> "c2"],
  [op |-> "comb", id |-> "uuk", a |-> "uu", b |-> "c2"],
  [op |-> "comb", id |-> "ufk", a |-> "uf", b |-> "c2"],
  [op |-> "comb", id |-> "ubk", a |-> "ub", b |-> "c2"],
  Obj("o", FALSE, FALSE, "k"), Obj("ol", FALSE, FALSE, "kl") >>

Policies == {[op |-> "policy", kind |-> "none", grant |-> <<>>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<>>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<"p">>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<"q">>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<"p", "q">>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<>>, fail |-> <<"p">>]}

Edits(tables, names) ==
  {[op |-> "entry", id |-> t, name |-> n, perm |-> p] : t \in tables, n \in names, p \in Perms}
  \cup {[op |-> "noentry", id |-> t, name |-> n] : t \in tables, n \in names}

Checks(cs, os) ==
  {[op |-> "check", c |-> c, kind |-> k, name |-> n, o |-> o] :
     c \in cs, k \in {"check", "getattr", "setattr"}, n \in Names, o \in os}

CanDos(os) ==
  {[op |-> w, o |-> o, name |-> n, form |-> f] :
     w \in {"canaccess", "canwrite"}, o \in os, n \in Names, f \in {"bare", "proxied"}}
  \cup {[op |-> w, o |-> o, name |-> n, form |-> "proxied", c |-> c] :
     w \in {"canaccess", "canwrite"}, o \in os, n \in Names, c \in IF Part = "std" THEN {"c0"} ELSE {"c1", "c2"}}

Mids(cs, o, tables, names) ==
  {[op |-> "midcheck", c |-> c, kind |-> k, name |-> n, o |-> o,
    edit |-> [id |-> t, name |-> n, perm |-> p]] :
     c \in cs, k \in {"check", "setattr"}, n \in names, t \in tables, p \in {""} \cup (Perms \ {NONE})}

StdCalls(s) ==
  Mids({"c"}, "o1", {"g"}, {CHOOSE n \in Names : TRUE}) \cup
  Edits({"g"}, Names) \cup Edits({"s"}, {CHOOSE n \in Names : TRUE}) \cup Policies
  \cup Checks({"c"}, {"o1", "o2", "o3"}) \cup CanDos({"o1", "o2", "o3"})
  \cup {[op |-> "permid", c |-> "c", kind |-> k, name |-> n] : k \in {"get", "set"}, n \in Names}

CombCalls(s) ==
  Mids({"k", "kr"}, "o", {"g1", "g2"}, Names) \cup Edits({"g1", "g2"}, Names) \cup Policies
  \cup Checks({"k", "kl", "kr", "kuo", "kuu", "kuf", "kub", "uok", "uuk", "ufk", "ubk"}, {"o"})
  \cup CanDos({"o", "ol"})

\* The same with the write tables kept equal to the read tables, so that
\* reads and writes are exercised alike.
Mirror(e) == IF e.op = "entry" THEN [e EXCEPT !.id = IF e.id = "g1" THEN "s1" ELSE "s2"]
             ELSE IF e.op = "noentry" THEN [e EXCEPT !.id = IF e.id = "g1" THEN "s1" ELSE "s2"]
             ELSE e
CombSetCalls(s) == Mids({"k", "kr"}, "o", {"s1", "s2"}, Names) \cup {Mirror(e) : e \in Edits({"g1", "g2"}, Names)} \cup Policies
  \cup Checks({"k", "kl", "kr", "kuo", "kuu", "kuf", "kub", "uok", "uuk", "ufk", "ubk"}, {"o"})
  \cup CanDos({"o", "ol"})

TheCalls(s) == CASE Part = "std" -> StdCalls(s)
                 [] Part = "combget" -> CombCalls(s)
                 [] Part = "combset" -> CombSetCalls(s)
TheSetup == IF Part = "std" THEN StdSetup ELSE CombSetup

TheKey(s) == <<s.tables, s.policy>>

INSTANCE MCBase WITH InitOf <- ChkInit, Outcomes <- ChkOutcomes, Calls <- TheCalls, Setup <- TheSetup, Impls <- {"c"}, Key <- TheKey

---------------------------------------------------------------------------
(* The properties, stated without reference to how decisions are computed. *)

Kind(e) == CASE e.kind = "setattr" -> "set" [] e.kind = "getattr" -> "get" [] OTHER -> "op"

\* C04: allowed iff public, or a granted permission, or unmapped and
\* always available (or the iteration hook of an object without any).
AllowedByTables(s, e) ==
  LET t == s.tables[IF Kind(e) = "set" THEN "s" ELSE "g"]
      m(n) == n \in DOMAIN t /\ t[n] # NONE
      good(n) == t[n] = PUBLIC \/ (s.policy.kind = "table" /\ t[n] \in s.policy.grant \ s.policy.fail) IN
  \/ m(e.name) /\ good(e.name)
  \/ ~m(e.name) /\ Kind(e) # "set"
     /\ \/ e.name \in Available
        \/ /\ e.name = "__iter__" /\ ~s.objs[e.o].iter
           /\ s.objs[e.o].item => (m("__getitem__") /\ good("__getitem__"))

\* The same at the time of the question, whatever happens during it.
C04mid == last'.e.op = "midcheck" /\ Part = "std" =>
  /\ (last'.obs.r = "ok") <=> AllowedByTables(st, last'.e)
  /\ last'.obs.r = "unauth" =>
       last'.obs.asked = {last'.obs.arg \o "@" \o last'.e.o}

C04 == last'.e.op = "check" /\ Part = "std" =>
  /\ (last'.obs.r = "ok") <=> AllowedByTables(st, last'.e)
  /\ last'.obs.r = "unauth" =>       \* refused by the policy: it was asked just that
       last'.obs.asked = {last'.obs.arg \o "@" \o last'.e.o}
  /\ last'.obs.r = "forbid" => last'.obs.asked = {}
  /\ st' = st
  /\ last'.obs.asked \subseteq {q \o "@" \o last'.e.o : q \in Perms}

\* C05: the documented table, for each combined checker over its parts.
PartDec(c, e) == Decide(st, c, Kind(e), e.name, e.o)
C05 == last'.e.op = "check" /\ st.checkers[last'.e.c].t = "comb" =>
  LET k == st.checkers[last'.e.c]
      a == PartDec(k.a, last'.e) b == PartDec(k.b, last'.e) r == last'.obs.r IN
  /\ a.v = "ok" => r = "ok" /\ last'.obs.cons = a.cons /\ last'.obs.asked = a.asked
  /\ a.v = "error" => r = "error" /\ last'.obs.cons = a.cons
  /\ a.v = "unauth" /\ b.v = "ok" => r = "ok"
  /\ a.v = "unauth" /\ b.v = "unauth" => r = "unauth"
  /\ a.v = "unauth" /\ b.v = "forbid" => r = "unauth" /\ last'.obs.arg = a.arg
  /\ a.v = "forbid" /\ b.v = "ok" => r = "ok"
  /\ a.v = "forbid" /\ b.v = "unauth" => r = "unauth"
  /\ a.v = "forbid" /\ b.v = "forbid" => r = "forbid"
  /\ a.v \in {"unauth", "forbid"} /\ b.v = "error" => r = "error"

\* C06: the predictions agree with what access would do.
C06 ==
  /\ last'.e.op = "canaccess" =>
       LET d == Decide(st, CheckerFor(st, last'.e), "get", last'.e.name, last'.e.o) IN
       /\ last'.obs.r = "True" <=> d.v = "ok"
       /\ last'.obs.r = "False" <=> d.v = "unauth"
       /\ last'.obs.r = "forbid" <=> d.v = "forbid"
  /\ last'.e.op = "canwrite" =>
       LET w == Decide(st, CheckerFor(st, last'.e), "set", last'.e.name, last'.e.o)
           d == Decide(st, CheckerFor(st, last'.e), "get", last'.e.name, last'.e.o) IN
       /\ last'.obs.r = "True" <=> w.v = "ok"
       /\ last'.obs.r = "False" <=> w.v = "unauth" \/ (w.v = "forbid" /\ d.v \in {"ok", "unauth"})
       /\ last'.obs.r = "forbid" <=> w.v = "forbid" /\ d.v = "forbid"

Props == [][C04 /\ C04mid /\ C05 /\ C06]_mcvars
=============================================================================
