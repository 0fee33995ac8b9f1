------------------------------ MODULE Checkers ------------------------------
(***************************************************************************)
(* Security checkers: name-based checkers over live permission tables,     *)
(* combined checkers, and the questions asked of them.                     *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   impl     "c" or "py", the implementation the trace comes from         *)
(*   tables   table id -> (name -> permission); tables are shared, live    *)
(*   checkers checker id -> checker record                                 *)
(*   policy   how the current interaction answers checkPermission          *)
(*   objs     object id -> what matters about the object                   *)
(*                                                                         *)
(* Permissions are strings; "PUBLIC" stands for the public marker and      *)
(* "NONE" for None.                                                        *)
(***************************************************************************)
EXTENDS Lib

PUBLIC == "PUBLIC"
NONE == "NONE"

\* Names that every name-based checker makes available unless mapped.
Available == {"__lt__", "__le__", "__eq__", "__gt__", "__ge__", "__ne__",
              "__hash__", "__bool__", "__class__", "__providedBy__",
              "__implements__", "__repr__", "__conform__", "__name__",
              "__parent__"}

---------------------------------------------------------------------------
(* Decisions.  A decision is a record                                      *)
(*   v      "ok", "unauth", "forbid" or "error"                            *)
(*   arg    permission (unauth), name (forbid), kind of error, or ""       *)
(*   asked  {"permission@object"} the policy was asked about               *)
(*   cons   user-supplied checkers that were consulted                     *)

Dec(v, arg, asked, cons) == [v |-> v, arg |-> arg, asked |-> asked, cons |-> cons]
Granted == Dec("ok", "", {}, {})
Forbid(name) == Dec("forbid", name, {}, {})

\* What asking the current interaction's policy for perm on object o yields.
Ask(st, perm, o) ==
  LET pol == st.policy
      q == {perm \o "@" \o o} IN
  CASE pol.kind = "none" -> Dec("error", "NoInteraction", {}, {})
    [] pol.kind = "table" /\ perm \in pol.fail -> Dec("error", "PolicyError", q, {})
    [] pol.kind = "table" /\ perm \in pol.grant -> Dec("ok", "", q, {})
    [] OTHER -> Dec("unauth", perm, q, {})

ByPermission(st, perm, o) == IF perm = PUBLIC THEN Granted ELSE Ask(st, perm, o)

Mapped(table, name) == name \in DOMAIN table /\ table[name] # NONE

\* Reading or operating by name under a read table.
DecideGet(st, table, name, o) ==
  CASE Mapped(table, name) -> ByPermission(st, table[name], o)
    [] name \in Available -> Granted
    [] name = "__iter__" /\ ~st.objs[o].iter ->
         \* Iteration then needs __getitem__ or fails with a plain error.
         IF ~st.objs[o].item THEN Granted
         ELSE IF Mapped(table, "__getitem__")
              THEN ByPermission(st, table["__getitem__"], o)
              ELSE Forbid("__getitem__")
    [] OTHER -> Forbid(name)

\* Writing a name under a write table.
DecideSet(st, table, name, o) ==
  IF Mapped(table, name) THEN ByPermission(st, table[name], o) ELSE Forbid(name)

\* Logical or of two decisions where the second is only made if needed.
Or(a, b) ==
  IF a.v \notin {"unauth", "forbid"} THEN a
  ELSE LET both == [b EXCEPT !.asked = @ \cup a.asked, !.cons = @ \cup a.cons] IN
       IF a.v = "unauth" /\ b.v = "forbid"
       THEN [a EXCEPT !.asked = both.asked, !.cons = both.cons]
       ELSE both

RECURSIVE Decide(_, _, _, _, _)
\* kind is "get" (reading), "op" (any other operation) or "set".
Decide(st, c, kind, name, o) ==
  LET k == st.checkers[c] IN
  CASE k.t = "std" /\ kind \in {"get", "op"} -> DecideGet(st, st.tables[k.get], name, o)
    [] k.t = "std" /\ kind = "set" -> DecideSet(st, st.tables[k.set], name, o)
    [] k.t = "comb" -> Or(Decide(st, k.a, kind, name, o), Decide(st, k.b, kind, name, o))
    [] k.t = "user" -> LET asop == kind = "op" /\ k.rop # ""
             r == IF asop THEN k.rop ELSE IF kind = "set" THEN k.rset ELSE k.rget
             me == {c \o ":" \o IF asop THEN "op" ELSE IF kind = "set" THEN "set" ELSE "get"} IN
         CASE r = "ok" -> Dec("ok", "", {}, me)
           [] r = "unauth" -> Dec("unauth", "u:" \o c, {}, me)
           [] r = "forbid" -> Dec("forbid", name, {}, me)
           [] OTHER -> Dec("error", "Boom", {}, me)

\* The read (write) table a checker exposes.
RECURSIVE GetTable(_, _)
GetTable(st, c) == LET k == st.checkers[c] IN
  IF k.t = "comb" THEN GetTable(st, k.a) ELSE k.get
RECURSIVE SetTable(_, _)
SetTable(st, c) == LET k == st.checkers[c] IN
  IF k.t = "comb" THEN SetTable(st, k.a) ELSE k.set

---------------------------------------------------------------------------
(* The calls.  Each is total: it says for every state and arguments what   *)
(* is observed and what the next state is.                                 *)

ChkInit(impl) == [impl |-> impl, tables |-> Empty, checkers |-> Empty,
                 policy |-> [kind |-> "none", grant |-> {}, fail |-> {}],
                 objs |-> Empty]

Quiet == [r |-> "done"]
Obs(d) == [r |-> d.v, arg |-> d.arg, asked |-> d.asked, cons |-> d.cons]

NewTable(st, e) == One([st EXCEPT !.tables = Put(@, e.id, e.map)], Quiet)
SetEntry(st, e) ==
  One([st EXCEPT !.tables = Put(@, e.id, Put(@[e.id], e.name, e.perm))], Quiet)
DelEntry(st, e) ==
  One([st EXCEPT !.tables = Put(@, e.id, Drop(@[e.id], e.name))], Quiet)

\* A name-based checker on two existing tables, or with no write table given:
\* then it has an empty one of its own, named after the checker.
NewStd(st, e) ==
  LET own == e.id \o ".set"
      st1 == IF e.set = "" THEN [st EXCEPT !.tables = Put(@, own, Empty)] ELSE st
      set == IF e.set = "" THEN own ELSE e.set IN
  One([st1 EXCEPT !.checkers = Put(@, e.id, [t |-> "std", get |-> e.get, set |-> set])], Quiet)

NewCombined(st, e) ==
  One([st EXCEPT !.checkers = Put(@, e.id, [t |-> "comb", a |-> e.a, b |-> e.b])], Quiet)

\* A checker whose answers are supplied by the test ("user"): either a
\* foreign object or a subclass that overrides the check methods.
NewUser(st, e) ==
  LET g == e.id \o ".get" s == e.id \o ".set" IN
  One([st EXCEPT
        !.tables = Put(Put(@, g, Empty), s, Empty),
        !.checkers = Put(@, e.id, [t |-> "user", get |-> g, set |-> s,
                                   rget |-> e.rget, rset |-> e.rset,
                                   rop |-> Get(e, "rop", "")])], Quiet)

SetPolicy(st, e) ==
  One([st EXCEPT !.policy = [kind |-> e.kind, grant |-> ToSet(e.grant),
                             fail |-> ToSet(e.fail)]], Quiet)

NewObject(st, e) ==
  One([st EXCEPT !.objs = Put(@, e.id, [iter |-> e.iter, item |-> e.item,
                                        checker |-> e.checker])], Quiet)

\* checker.check / check_getattr / check_setattr
Check(st, e) ==
  One(st, Obs(Decide(st, e.c, CASE e.kind = "setattr" -> "set" [] e.kind = "getattr" -> "get" [] OTHER -> "op",
                       e.name, e.o)))

\* checker.permission_id / setattr_permission_id
PermissionId(st, e) ==
  LET t == st.tables[IF e.kind = "set" THEN SetTable(st, e.c) ELSE GetTable(st, e.c)] IN
  One(st, [r |-> "ok", perm |-> Get(t, e.name, NONE)])

\* The checker of what is asked about: of the proxy that is handed in, or the
\* object's own.
CheckerFor(st, e) == Get(e, "c", st.objs[e.o].checker)

CanAccess(st, e) ==
  LET d == Decide(st, CheckerFor(st, e), "get", e.name, e.o) IN
  One(st, CASE d.v = "ok" -> [Obs(d) EXCEPT !.r = "True", !.arg = ""]
            [] d.v = "unauth" -> [Obs(d) EXCEPT !.r = "False", !.arg = ""]
            [] OTHER -> Obs(d))

CanWrite(st, e) ==
  LET w == Decide(st, CheckerFor(st, e), "set", e.name, e.o)
      r == Decide(st, CheckerFor(st, e), "get", e.name, e.o)
      wr == [r EXCEPT !.asked = @ \cup w.asked, !.cons = @ \cup w.cons] IN
  One(st, CASE w.v = "ok" -> [Obs(w) EXCEPT !.r = "True", !.arg = ""]
            [] w.v = "unauth" -> [Obs(w) EXCEPT !.r = "False", !.arg = ""]
            [] w.v = "error" -> Obs(w)
            [] w.v = "forbid" /\ r.v \in {"ok", "unauth"} -> [Obs(wr) EXCEPT !.r = "False", !.arg = ""]
            [] OTHER -> Obs(wr))

\* Attribute access through the proxy of object o: whether it was allowed
\* and whether it had its effect.
Access(st, e) ==
  LET d == Decide(st, CheckerFor(st, e), IF e.kind = "get" THEN "get" ELSE "set", e.name, e.o) IN
  One(st, [r |-> d.v, arg |-> d.arg, asked |-> d.asked, cons |-> d.cons,
           eff |-> IF d.v = "ok" THEN "yes" ELSE "no"])

\* A check during which the permission tables change: while it is asked, the
\* policy sets (or, for no permission, removes) the entry e.edit.  What has been
\* looked up stays decided; only later parts of a combined checker see the change.
Edited(st, ed) ==
  IF ed.perm = "" THEN [st EXCEPT !.tables = Put(@, ed.id, Drop(@[ed.id], ed.name))]
  ELSE [st EXCEPT !.tables = Put(@, ed.id, Put(@[ed.id], ed.name, ed.perm))]
RECURSIVE DecideMid(_, _, _, _, _, _)
DecideMid(st, ed, c, kind, name, o) ==
  LET k == st.checkers[c] IN
  IF k.t = "comb" THEN
    LET a == DecideMid(st, ed, k.a, kind, name, o) IN
    IF a.d.v \notin {"unauth", "forbid"} THEN a
    ELSE LET b == DecideMid(a.st, ed, k.b, kind, name, o) IN
         [d |-> Or(a.d, b.d), st |-> b.st]
  ELSE LET d == Decide(st, c, kind, name, o) IN
       [d |-> d, st |-> IF d.asked = {} THEN st ELSE Edited(st, ed)]
MidCheck(st, e) ==
  LET r == DecideMid(st, e.edit, e.c,
                     CASE e.kind = "setattr" -> "set" [] e.kind = "getattr" -> "get" [] OTHER -> "op",
                     e.name, e.o) IN
  One(r.st, Obs(r.d))

ChkOutcomes(st, e) ==
  CASE e.op = "table" -> NewTable(st, e)
    [] e.op = "entry" -> SetEntry(st, e)
    [] e.op = "noentry" -> DelEntry(st, e)
    [] e.op = "std" -> NewStd(st, e)
    [] e.op = "comb" -> NewCombined(st, e)
    [] e.op = "user" -> NewUser(st, e)
    [] e.op = "policy" -> SetPolicy(st, e)
    [] e.op = "object" -> NewObject(st, e)
    [] e.op = "check" -> Check(st, e)
    [] e.op = "midcheck" -> MidCheck(st, e)
    [] e.op = "permid" -> PermissionId(st, e)
    [] e.op = "canaccess" -> CanAccess(st, e)
    [] e.op = "canwrite" -> CanWrite(st, e)
    [] e.op = "access" -> Access(st, e)

ChkSetFields == {"asked", "cons"}
=============================================================================
