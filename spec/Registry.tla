------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of checkers by type, and which checker a value gets.       *)
(*                                                                         *)
(*   reg     type -> entry: "NOPROXY", a checker, or a function            *)
(*   basic   types that were declared basic by the user -> their entry     *)
(*   fns     function -> [to, act]: what it yields ("NOPROXY", "NONE",     *)
(*           "boom", a checker or a function), and the call (define,       *)
(*           undefine or cleanup) it makes itself before, if any           *)
(*   objs    object -> [type, own], own being what it has as a checker of  *)
(*           its own: "" (nothing), "NONE", "boom" or a checker            *)
(*                                                                         *)
(* Types and modules are known by name; the built-in ones that take part   *)
(* are in BuiltIn with the name of their built-in entry.  A module's own   *)
(* entry is found by the built-in function for modules.                    *)
(***************************************************************************)
EXTENDS Lib

BuiltIn == [t \in {"list", "tuple", "dict", "int", "str", "type", "function", "module", "proxy"} |->
              IF t \in {"int", "str", "proxy"} THEN "NOPROXY"
              ELSE IF t = "module" THEN "BYMODULE"
              ELSE "DEF:" \o t]
BasicBuiltIn == {"int", "str"}

RegInit(impl) == [impl |-> impl, reg |-> BuiltIn, basic |-> Empty, types |-> Empty,
                  fns |-> Empty, objs |-> Empty, checkers |-> {}]


\* A user-defined type; `exc' if its instances are exceptions.
NewType(st, e) == Fine([st EXCEPT !.types = Put(@, e.id, [exc |-> e.exc])])
NewFn(st, e) == Fine([st EXCEPT !.fns = Put(@, e.id, [to |-> e.to, act |-> IF "act" \in DOMAIN e THEN e.act ELSE [op |-> ""]])])
NewObj(st, e) == Fine([st EXCEPT !.objs = Put(@, e.id, [type |-> e.type, own |-> e.own])])
NewChecker(st, e) == Fine([st EXCEPT !.checkers = @ \cup {e.id}])

\* e.what is a type or module, or something that cannot have a checker.
Definable(st, w) == w \in DOMAIN st.types \/ w \in DOMAIN BuiltIn
                    \/ (w \in DOMAIN st.objs /\ st.objs[w].type = "module")
Define(st, e) ==
  IF ~Definable(st, e.what) THEN Fails(st, "TypeError")
  ELSE IF e.what \in DOMAIN st.reg THEN Fails(st, "DuplicationError")
  ELSE Fine([st EXCEPT !.reg = Put(@, e.what, e.entry)])

Undefine(st, e) ==
  IF e.what \in DOMAIN st.reg THEN Fine([st EXCEPT !.reg = Drop(@, e.what)])
  ELSE Fails(st, "KeyError")

\* Test cleanup: the built-in registrations and the basic types.
Cleanup(st) ==
  Fine([st EXCEPT !.reg = [t \in DOMAIN BuiltIn \cup DOMAIN st.basic |->
                             IF t \in DOMAIN st.basic THEN st.basic[t] ELSE BuiltIn[t]]])

\* Declaring a type basic gives it its entry (that of a rock, mostly), now and
\* after cleanup.  A type that is already basic keeps its entry if e.how says so.
Basic(st, e) ==
  IF e.how = "setdefault" /\ e.what \in DOMAIN st.basic THEN Fine(st)
  ELSE Fine([st EXCEPT !.basic = Put(@, e.what, e.entry), !.reg = Put(@, e.what, e.entry)])
Unbasic(st, e) ==
  IF e.what \notin DOMAIN st.basic THEN IF e.how = "default" THEN Fine(st) ELSE Fails(st, "KeyError")
  ELSE IF e.what \notin DOMAIN st.reg THEN One([st EXCEPT !.basic = Drop(@, e.what)], [r |-> "error", arg |-> "KeyError"])
  ELSE Fine([st EXCEPT !.basic = Drop(@, e.what), !.reg = Drop(@, e.what)])

\* What a function does besides yielding something; failures are its own.
Act(st, a) ==
  CASE a.op = "define" -> (CHOOSE x \in Define(st, a) : TRUE).st
    [] a.op = "undefine" -> (CHOOSE x \in Undefine(st, a) : TRUE).st
    [] a.op = "cleanup" -> (CHOOSE x \in Cleanup(st) : TRUE).st
    [] OTHER -> st

\* Following functions from entry n for object o.
RECURSIVE Follow(_, _, _, _)
Follow(st, n, o, calls) ==
  IF n = "BYMODULE" THEN Follow(st, Get(st.reg, o, "NAMED"), o, calls)
  ELSE IF n \in {"NOPROXY", "NONE"} THEN [r |-> "ok", val |-> "none", calls |-> calls, st |-> st]
  ELSE IF n = "boom" THEN [r |-> "error", val |-> "Boom", calls |-> calls, st |-> st]
  ELSE IF n \in DOMAIN st.fns
  THEN Follow(Act(st, st.fns[n].act), st.fns[n].to, o, Append(calls, n \o "@" \o o))
  ELSE [r |-> "ok", val |-> n, calls |-> calls, st |-> st]

\* What the type of o yields.  The C implementation leaves exceptions alone
\* (real ones, not objects that claim to be one).
ByType(st, o) ==
  LET t == st.objs[o].type IN
  IF t \in DOMAIN st.reg THEN Follow(st, st.reg[t], o, <<>>)
  ELSE IF st.impl = "c" /\ t \in DOMAIN st.types /\ st.types[t].exc
  THEN [r |-> "ok", val |-> "none", calls |-> <<>>, st |-> st]
  ELSE [r |-> "ok", val |-> "DEFAULT", calls |-> <<>>, st |-> st]

\* What proxying o uses.
Selected(st, o) ==
  LET w == st.objs[o].own IN
  IF w = "boom" THEN [r |-> "error", val |-> "Boom", calls |-> <<>>, st |-> st]
  ELSE IF w \notin {"", "NONE"} THEN [r |-> "ok", val |-> w, calls |-> <<>>, st |-> st]
  ELSE ByType(st, o)
Told(x) == One(x.st, [r |-> x.r, val |-> x.val, calls |-> x.calls])

RegOutcomes(st, e) ==
  CASE e.op = "checker" -> NewChecker(st, e)
    [] e.op = "type" -> NewType(st, e)
    [] e.op = "fn" -> NewFn(st, e)
    [] e.op = "object" -> NewObj(st, e)
    [] e.op = "define" -> Define(st, e)
    [] e.op = "undefine" -> Undefine(st, e)
    [] e.op = "cleanup" -> Cleanup(st)
    [] e.op = "basic" -> Basic(st, e)
    [] e.op = "unbasic" -> Unbasic(st, e)
    [] e.op = "lookup" -> One(st, [r |-> "ok", val |-> Get(st.reg, e.what, "none")])
    [] e.op = "select" -> Told(ByType(st, e.o))
    [] e.op \in {"factory", "result"} -> Told(Selected(st, e.o))
    \* every built-in registration is in place
    [] e.op = "builtins" ->
         One(st, [r |-> IF \A t \in DOMAIN BuiltIn : Get(st.reg, t, "") = BuiltIn[t] THEN "all" ELSE "not all"])

RegSetFields == {}
=============================================================================
