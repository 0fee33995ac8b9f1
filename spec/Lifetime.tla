------------------------------ MODULE Lifetime ------------------------------
(***************************************************************************)
(* What keeps what alive: graphs of objects, permission tables, checkers,  *)
(* combined checkers, proxies and the exceptions that refusals raise.      *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   nodes   id -> node; every node that is still in memory                *)
(*   held    ids that the program holds a reference to                     *)
(*   reg     type -> checker registered for instances of that type         *)
(*                                                                         *)
(* A node is [k, refs, type] with refs a function from slots to ids:       *)
(*   obj     one slot per attribute                                        *)
(*   table   one slot per name, the permission                             *)
(*   std     "get" and "set"        comb    "a" and "b"                    *)
(*   proxy   "object", "checker"    exc     "object", "perm"               *)
(*                                                                         *)
(* Memory is reclaimed at once when nothing refers to a node any more, and *)
(* by the garbage collector when it cannot be reached.                     *)
(***************************************************************************)
EXTENDS Lib

LifInit(impl) == [impl |-> impl, nodes |-> Put(Empty, "DEFAULT", [k |-> "std", refs |-> Empty, type |-> ""]),
                  held |-> {"DEFAULT"}, reg |-> Empty]

RefsOf(st, n) == {st.nodes[n].refs[s] : s \in DOMAIN st.nodes[n].refs}
Roots(st) == st.held \cup {st.reg[t] : t \in DOMAIN st.reg}
Keep(st, S) == [st EXCEPT !.nodes = [n \in S |-> st.nodes[n]]]

\* Dropping what nothing refers to, and then what only that referred to, ...
RECURSIVE Sweep(_)
Sweep(st) ==
  LET used == UNION {RefsOf(st, m) : m \in DOMAIN st.nodes} \cup Roots(st)
      S == (DOMAIN st.nodes) \cap used IN
  IF S = DOMAIN st.nodes THEN st ELSE Sweep(Keep(st, S))

RECURSIVE Reach(_, _)
Reach(st, S) ==
  LET T == S \cup UNION {RefsOf(st, m) : m \in S} IN IF T = S THEN S ELSE Reach(st, T)
Collect(st) == Keep(st, Reach(st, Roots(st)))

---------------------------------------------------------------------------
\* What is observed after a call: the nodes that can be told apart (objects
\* by weak references to them), and how many checkers and proxies there are.
Kinds(st, ks) == {n \in DOMAIN st.nodes : st.nodes[n].k \in ks}
Seen(st, obs) ==
  LET all == [alive |-> Kinds(st, {"obj"}), np |-> ToString(Cardinality(Kinds(st, {"proxy"}))),
              nc |-> ToString(Cardinality(Kinds(st, {"std", "comb"})))] IN
  [f \in (DOMAIN obs) \cup DOMAIN all |-> IF f \in DOMAIN obs THEN obs[f] ELSE all[f]]
After(st, obs) == LET s == Sweep(st) IN One(s, Seen(s, obs))
Okay(st) == After(st, [r |-> "done"])

New(st, id, k, refs, type) ==
  [st EXCEPT !.nodes = Put(@, id, [k |-> k, refs |-> refs, type |-> type]), !.held = @ \cup {id}]
Two(a, x, b, y) == Put(Put(Empty, a, x), b, y)
Link(st, n, slot, to) == [st EXCEPT !.nodes[n].refs = Put(@, slot, to)]

\* The checker for instances of a type.
Select(st, t) == Get(st.reg, t, "DEFAULT")

\* What is handed out for v, reached through a proxy or given to the factory:
\* a proxy as it is, a new one for anything else.
HandOut(st, v, res) ==
  LET n == st.nodes[v] IN
  IF n.k = "proxy" THEN [st |-> [st EXCEPT !.held = @ \cup {v}], what |-> v]
  ELSE [st |-> New(st, res, "proxy", Two("object", v, "checker", IF n.k = "obj" THEN Select(st, n.type) ELSE "DEFAULT"), ""),
        what |-> "new"]

Give(st, v, res) == LET h == HandOut(st, v, res) IN After(h.st, [r |-> "ok", arg |-> h.what])

\* Decisions: a table grants what it maps to GRANT, asks about any other
\* permission it maps to (and the policy refuses), and forbids the rest.
\* The default checker grants nothing.
RECURSIVE Decide(_, _, _, _)
Decide(st, c, kind, name) ==
  LET n == st.nodes[c] IN
  IF c = "DEFAULT" THEN [v |-> "forbid", perm |-> ""]
  ELSE IF n.k = "std" THEN
    LET t == st.nodes[n.refs[kind]] IN
    CASE name \in ToSet(t.type) -> [v |-> "ok", perm |-> ""]
      [] name \in DOMAIN t.refs -> [v |-> "unauth", perm |-> t.refs[name]]
      [] OTHER -> [v |-> "forbid", perm |-> ""]
  ELSE LET a == Decide(st, n.refs["a"], kind, name)
           b == Decide(st, n.refs["b"], kind, name) IN
       CASE a.v = "ok" -> a
         [] a.v = "unauth" /\ b.v = "forbid" -> a
         [] OTHER -> b

\* A refusal, whose exception is kept if it gets a name: then it holds on to
\* the object and the permission in question.
Refused(st, d, o, res) ==
  LET obs == [r |-> d.v] IN
  IF res = "" THEN After(st, obs)
  ELSE After(New(st, res, "exc", IF d.v = "unauth" THEN Two("object", o, "perm", d.perm) ELSE Put(Empty, "object", o), ""), obs)

Through(st, p) == [o |-> st.nodes[p].refs["object"], c |-> st.nodes[p].refs["checker"]]

\* Reading an attribute through a proxy.
Read(st, e) ==
  LET x == Through(st, e.p) d == Decide(st, x.c, "get", e.name) IN
  IF d.v # "ok" THEN Refused(st, d, x.o, e.err)
  ELSE IF e.name \notin DOMAIN st.nodes[x.o].refs THEN After(st, [r |-> "missing"])
  ELSE Give(st, st.nodes[x.o].refs[e.name], e.res)

\* Writing or deleting one.
Write(st, e) ==
  LET x == Through(st, e.p) d == Decide(st, x.c, "set", e.name) IN
  IF d.v # "ok" THEN Refused(st, d, x.o, e.err)
  ELSE IF e.to # "" THEN Okay(Link(st, x.o, e.name, e.to))
  ELSE IF e.name \notin DOMAIN st.nodes[x.o].refs THEN After(st, [r |-> "missing"])
  ELSE Okay([st EXCEPT !.nodes[x.o].refs = Drop(@, e.name)])

\* Calling the object, which returns the first of its arguments, or itself.
Call(st, e) ==
  LET x == Through(st, e.p) d == Decide(st, x.c, "get", "__call__") IN
  IF d.v # "ok" THEN Refused(st, d, x.o, e.err)
  ELSE Give(st, IF e.args = <<>> THEN x.o ELSE e.args[1], e.res)

LifOutcomes(st, e) ==
  CASE e.op = "obj" -> Okay(New(st, e.id, "obj", Empty, e.type))
    [] e.op = "table" -> Okay(New(st, e.id, "table", Empty, e.grant))
    [] e.op = "std" -> Okay(New(st, e.id, "std", Two("get", e.get, "set", e.set), ""))
    [] e.op = "comb" -> Okay(New(st, e.id, "comb", Two("a", e.a, "b", e.b), ""))
    [] e.op = "proxy" -> Okay(New(st, e.id, "proxy", Two("object", e.of, "checker", e.c), ""))
    [] e.op = "factory" -> Give(st, e.of, e.res)
    [] e.op = "link" -> Okay(Link(st, e.n, e.slot, e.to))
    [] e.op = "unlink" -> Okay([st EXCEPT !.nodes[e.n].refs = Drop(@, e.slot)])
    [] e.op = "drop" -> Okay([st EXCEPT !.held = @ \ {e.n}])
    [] e.op = "define" -> Okay([st EXCEPT !.reg = Put(@, e.type, e.c)])
    [] e.op = "undefine" -> Okay([st EXCEPT !.reg = Drop(@, e.type)])
    \* what is in a proxy, for those who may know
    [] e.op = "inside" -> LET n == st.nodes[e.p].refs[e.slot] IN After([st EXCEPT !.held = @ \cup {n}], [r |-> "ok", arg |-> n])
    [] e.op = "read" -> Read(st, e)
    [] e.op = "write" -> Write(st, e)
    [] e.op = "call" -> Call(st, e)
    \* any number of operations of any kind whose results are let go
    [] e.op = "stress" -> After(Collect(st), [r |-> "done", leaks |-> {}])
    [] e.op = "gc" -> Okay(Collect(st))
    [] e.op = "nop" -> Okay(st)

LifSetFields == {"alive", "leaks"}

\* References lead to what is there.
LifInv(st) ==
  /\ Roots(st) \subseteq DOMAIN st.nodes
  /\ \A n \in DOMAIN st.nodes : RefsOf(st, n) \subseteq DOMAIN st.nodes
=============================================================================
