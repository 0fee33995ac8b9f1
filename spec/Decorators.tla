----------------------------- MODULE Decorators -----------------------------
(***************************************************************************)
(* Decorators and location proxies: the checkers they have.                *)
(*                                                                         *)
(* To a state of Checkers are added                                        *)
(*   nodes  node -> what it is:                                            *)
(*     [k |-> "obj", own, entry]   an object: the checker it has itself    *)
(*                                 ("" none, "NONE", "boom"), and the      *)
(*                                 registry's entry for its type           *)
(*     [k |-> "sec", of, c]        a security proxy of a node              *)
(*     [k |-> "dec", of, entry, attrs]  a decorator of a node, the entry   *)
(*                                 for its class, and the attributes that  *)
(*                                 the class defines                       *)
(*     [k |-> "loc", of]           a location proxy of a node              *)
(*   loc    the registry's entry for location proxies                      *)
(* Entries: "" (unregistered: the default checker, which grants nothing),  *)
(* "NOPROXY" (no checker), or a checker.                                   *)
(***************************************************************************)
EXTENDS Checkers

DecInit(impl) ==
  [impl |-> impl,
   tables |-> Put(Put(Empty, "DEFAULT.get", Empty), "DEFAULT.set", Empty),
   checkers |-> Put(Empty, "DEFAULT", [t |-> "std", get |-> "DEFAULT.get", set |-> "DEFAULT.set"]),
   policy |-> [kind |-> "none", grant |-> {}, fail |-> {}],
   objs |-> Empty, nodes |-> Empty, loc |-> ""]

Entry(en) == IF en = "" THEN "DEFAULT" ELSE IF en = "NOPROXY" THEN "none" ELSE en
EntryOf(st, x) == IF x.k = "loc" THEN st.loc ELSE x.entry

\* The checker of a node, as [st, c]: the combined ones are added to st.
RECURSIVE OwnOf(_, _), CheckerOf(_, _)
Both(st, a, b) == LET id == "(" \o a \o "+" \o b \o ")" IN
  [st |-> [st EXCEPT !.checkers = Put(@, id, [t |-> "comb", a |-> a, b |-> b])], c |-> id]
\* What its __Security_checker__ attribute is.
OwnOf(st, n) == LET x == st.nodes[n] IN
  CASE x.k = "obj" -> [st |-> st, c |-> IF x.own \in {"", "NONE"} THEN "none" ELSE x.own]
    [] OTHER ->
        LET under == IF st.nodes[x.of].k = "sec" THEN [st |-> st, c |-> st.nodes[x.of].c] ELSE CheckerOf(st, x.of)
            mine == Entry(EntryOf(st, x)) IN
        IF under.c = "boom" THEN under
        ELSE IF mine = "none" THEN under
        ELSE IF under.c = "none" THEN [st |-> st, c |-> mine]
        ELSE Both(under.st, mine, under.c)
\* What protects it.
CheckerOf(st, n) == LET w == OwnOf(st, n) IN
  IF w.c # "none" THEN w ELSE [st |-> st, c |-> Entry(EntryOf(st, st.nodes[n]))]
Protecting(st, n) == IF st.nodes[n].k = "sec" THEN [st |-> st, c |-> st.nodes[n].c] ELSE CheckerOf(st, n)

\* ---- access through a proxy of the node
Then(a, b) == IF a.v # "ok" THEN a ELSE [b EXCEPT !.asked = @ \cup a.asked, !.cons = @ \cup a.cons]
RECURSIVE Inner(_, _, _, _)
\* Reading or writing on the node itself; security proxies further in decide too.
Inner(st, n, kind, name) == LET x == st.nodes[n] IN
  CASE x.k = "obj" -> Granted
    [] x.k = "sec" -> Then(Decide(st, x.c, kind, name, x.of), Inner(st, x.of, kind, name))
    [] x.k = "dec" /\ name \in x.attrs /\ kind = "get" -> Granted
    [] OTHER -> Inner(st, x.of, kind, name)

DObs(d) == [r |-> d.v, arg |-> d.arg, asked |-> d.asked, cons |-> d.cons]
Bare == [r |-> "bare", arg |-> "", asked |-> {}, cons |-> {}]
Failed == [r |-> "error", arg |-> "Boom", asked |-> {}, cons |-> {}]
WithChecker(st, n, F(_)) ==
  LET p == Protecting(st, n) IN
  IF p.c = "boom" THEN Failed ELSE IF p.c = "none" THEN Bare ELSE DObs(F(p))
\* The object that its proxy asks about.
Asked(st, n) == IF st.nodes[n].k = "sec" THEN st.nodes[n].of ELSE n

DecOutcomes(st, e) ==
  CASE e.op = "obj" -> Fine([st EXCEPT !.nodes = Put(@, e.id, [k |-> "obj", own |-> e.own, entry |-> e.entry]),
                                       !.objs = Put(@, e.id, [iter |-> FALSE, item |-> FALSE, checker |-> ""])])
    [] e.op = "sec" -> Fine([st EXCEPT !.nodes = Put(@, e.id, [k |-> "sec", of |-> e.of, c |-> e.c])])
    [] e.op = "dec" -> Fine([st EXCEPT !.nodes = Put(@, e.id, [k |-> "dec", of |-> e.of, entry |-> e.entry, attrs |-> ToSet(e.attrs)]),
                                       !.objs = Put(@, e.id, [iter |-> FALSE, item |-> FALSE, checker |-> ""])])
    [] e.op = "loc" -> Fine([st EXCEPT !.nodes = Put(@, e.id, [k |-> "loc", of |-> e.of]),
                                       !.objs = Put(@, e.id, [iter |-> FALSE, item |-> FALSE, checker |-> ""])])
    [] e.op = "defloc" -> Fine([st EXCEPT !.loc = e.entry])
    \* the attribute itself
    [] e.op = "attr" ->
         LET w == OwnOf(st, e.n) IN
         One(st, CASE w.c = "none" -> [r |-> "absent", arg |-> ""]
                   [] w.c = "boom" -> [r |-> "error", arg |-> "Boom"]
                   [] w.c \in DOMAIN st.checkers -> [r |-> "checker", arg |-> w.c]
                   [] OTHER -> [r |-> "combined", arg |-> ""])
    \* the class of a decorator, itself a value like any other class
    [] e.op = "ofclass" -> One(st, [r |-> "registered"])
    [] e.op = "dcheck" ->     \* asking the checker that a proxy has
         One(st, WithChecker(st, e.n, LAMBDA p : Decide(p.st, p.c, e.kind, e.name, Asked(st, e.n))))
    [] e.op = "daccess" ->    \* going through the proxy
         LET n == e.n
             inner == Inner(st, IF st.nodes[n].k = "sec" THEN st.nodes[n].of ELSE n, e.kind, e.name)
             o == WithChecker(st, n, LAMBDA p : Then(Decide(p.st, p.c, e.kind, e.name, Asked(st, n)), inner)) IN
         One(st, o)
         \* Pure-Python proxies replace an AttributeError that comes from
         \* inside, which ForbiddenAttribute is a kind of, by a plain one.
         \cup (IF st.impl # "c" /\ e.kind = "get" /\ o.r = "forbid" /\ inner.v = "forbid"
              THEN UNION {One(st, [o EXCEPT !.r = "error", !.arg = a]) : a \in {"AttributeError", "NoInteraction"}} ELSE {})
    \* it cannot be assigned or deleted through a decorator
    [] e.op = "assign" -> One(st, [r |-> "error", arg |-> IF e.how = "set" THEN "TypeError" ELSE "refused"])
    [] OTHER -> ChkOutcomes(st, e)

DecInv(st) == TRUE
DecSetFields == ChkSetFields
=============================================================================
