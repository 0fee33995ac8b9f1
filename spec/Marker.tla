------------------------------- MODULE Marker -------------------------------
(***************************************************************************)
(* The public marker: the ways it can travel without ceasing to be itself, *)
(* what it grants, and the values that resemble it.                        *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   vals   id -> "PUBLIC" (the marker), "id" (the string that declares    *)
(*          things public), "none" (None) or "other"                       *)
(*   pol    the kind of the current interaction                            *)
(***************************************************************************)
EXTENDS Lib

PUBLIC == "PUBLIC"
Kinds == {"id", "name", "sub", "eqall", "inner", "global", "reproxied", "doubly", "samechecker", "pstr", "perm", "true",
          "int", "empty", "list", "noproxy", "class", "proxytype", "module", "spoof", "falsy"}

\* Ways by which a value comes back: through tables and checkers, through
\* proxies of what contains it, and copied or stored.
Routes == {"permid", "setpermid", "table", "names", "iface", "comb", "factory", "cproxy", "attr", "item", "listitem", "iter", "call", "kwargs",
           "copy", "deepcopy", "deepcontainer", "container", "pickle0", "pickle1", "pickle2", "pickle3", "pickle4",
           "pickle5", "pypickle", "thread", "dictkey", "set", "sorted", "default", "vocabulary"}

MkInit(impl) == [impl |-> impl, vals |-> Put(Put(Empty, "M", PUBLIC), "N", "none"), pol |-> "none"]

\* A value that resembles the marker.
Make(st, e) == One([st EXCEPT !.vals = Put(@, e.id, IF e.kind = "id" THEN "id" ELSE "other")], [r |-> "done"])

Travel(st, e) ==
  LET v == st.vals[e.v]
      to(x) == [st EXCEPT !.vals = Put(@, e.id, x)] IN
  IF v = PUBLIC
  THEN IF e.how = "remove" THEN One(to("other"), [r |-> "other"])
       ELSE One(to(PUBLIC), [r |-> PUBLIC])
  \* whatever comes of it, it is not the marker
  ELSE One(to("other"), [r |-> "other"]) \cup One(st, [r |-> "error"])

\* Ways of asking, by what they give
Checking == {"check", "check_getattr", "check_setattr", "names", "iface", "multi", "comb1", "comb2", "get", "set", "call", "declared"}
Predicting == {"canaccess", "canwrite"}
Asking == {"mgmt", "mgmtarg", "policy"}

\* What the interaction says about a permission that is not the marker.
Says(pol) ==
  CASE pol = "none" -> "error"
    [] pol \in {"permissive", "paranoid", "paranoid-system", "all"} -> "ok"
    [] pol \in {"paranoid-user", "paranoid-both", "nothing"} -> "unauth"
Recorded(pol) == pol \in {"all", "nothing"}

Ask(st, e) ==
  LET v == st.vals[e.v]
      granted(asked) == [r |-> "ok", perm |-> "", asked |-> asked] IN
  IF v = PUBLIC
  THEN CASE e.how = "policy" /\ st.pol = "none" -> [r |-> "error", perm |-> "", asked |-> {}]
         \* our own interactions do not know about the marker
         [] e.how = "policy" /\ Recorded(st.pol) ->
              [r |-> IF st.pol = "all" THEN "ok" ELSE "refused", perm |-> "", asked |-> {e.v}]
         [] OTHER -> granted({})
  ELSE IF v = "id" /\ e.how = "declared" THEN granted({})
  ELSE IF v = "none" THEN
         CASE e.how \in {"mgmt", "mgmtarg"} -> granted({})
           [] e.how = "policy" -> LET s == Says(st.pol) IN
                [r |-> IF s = "unauth" THEN "refused" ELSE s, perm |-> "", asked |-> IF Recorded(st.pol) THEN {e.v} ELSE {}]
           [] OTHER -> [r |-> "forbid", perm |-> "", asked |-> {}]
  ELSE LET s == Says(st.pol)
           asked == IF Recorded(st.pol) THEN {e.v} ELSE {} IN
       CASE s = "unauth" /\ e.how \in Checking -> [r |-> "unauth", perm |-> e.v, asked |-> asked]
         [] s = "unauth" -> [r |-> "refused", perm |-> "", asked |-> asked]
         [] OTHER -> [r |-> s, perm |-> "", asked |-> asked]

MkOutcomes(st, e) ==
  CASE e.op = "make" -> Make(st, e)
    [] e.op = "travel" -> Travel(st, e)
    [] e.op = "pol" -> One([st EXCEPT !.pol = e.kind], [r |-> "done"])
    [] e.op = "ask" -> One(st, Ask(st, e))
    [] e.op = "nop" -> One(st, [r |-> "ok"])
    \* the marker is recognised when stored by one process and loaded by another
    [] e.op = "process" -> One(st, [r |-> PUBLIC])

MkSetFields == {"asked"}
MkInv(st) == TRUE
=============================================================================
