------------------------------ MODULE Watching ------------------------------
(***************************************************************************)
(* Watching checks: what is reported about each check, at which verbosity, *)
(* and that nothing else depends on it.                                    *)
(*                                                                         *)
(* The state is that of Checkers, and                                      *)
(*   level   the verbosity that the environment asks for (0: no watching)  *)
(*   verb    checker id -> verbosity, for checkers with one of their own   *)
(* A report is "kind:name:object" with kind unauth, forbid or granted.     *)
(***************************************************************************)
EXTENDS Checkers

Default == "DEFAULT"

\* What ZOPE_WATCH_CHECKERS asks for.
LevelOf(env) == CASE env \in {"", "0"} -> 0 [] env = "2" -> 2 [] env = "3" -> 3 [] OTHER -> 1

WatInit(impl) ==
  LET s == ChkInit(impl) IN
  [f \in (DOMAIN s) \cup {"level", "verb"} |->
     CASE f = "level" -> 0 [] f = "verb" -> Empty
       [] f = "tables" -> Put(Put(Empty, "d.get", Empty), "d.set", Empty)
       [] f = "checkers" -> Put(Empty, Default, [t |-> "std", get |-> "d.get", set |-> "d.set"])
       [] OTHER -> s[f]]

Verb(st, c) == Get(st.verb, c, st.level)

\* What is reported when checker c decides.
RECURSIVE Log(_, _, _, _, _)
Log(st, c, kind, name, o) ==
  LET k == st.checkers[c]
      d == Decide(st, c, kind, name, o)
      say(what) == {what \o ":" \o name \o ":" \o o} IN
  CASE k.t = "std" ->
         CASE d.v \in {"unauth", "forbid"} -> IF Verb(st, c) >= 1 THEN say(d.v) ELSE {}
           [] d.v = "ok" -> IF Verb(st, c) > 1 THEN say("granted") ELSE {}
           [] OTHER -> {}
    [] k.t = "comb" ->
         \* the parts report; the second is only asked when the first refuses
         Log(st, k.a, kind, name, o) \cup
         IF Decide(st, k.a, kind, name, o).v \in {"unauth", "forbid"} THEN Log(st, k.b, kind, name, o) ELSE {}
    [] OTHER -> {}

Reports(st, e) ==
  LET c == CheckerFor(st, e)
      r == Log(st, c, "get", e.name, e.o)
      w == Log(st, c, "set", e.name, e.o) IN
  CASE e.op = "check" -> Log(st, e.c, CASE e.kind = "setattr" -> "set" [] e.kind = "getattr" -> "get" [] OTHER -> "op", e.name, e.o)
    [] e.op = "access" -> IF e.kind = "get" THEN r ELSE w
    [] e.op = "canaccess" -> r
    [] e.op = "canwrite" -> w \cup IF Decide(st, c, "set", e.name, e.o).v = "forbid" THEN r ELSE {}
    [] OTHER -> {}

WithLog(outs, log) ==
  {[st |-> x.st, obs |-> [f \in (DOMAIN x.obs) \cup {"log"} |-> IF f = "log" THEN log ELSE x.obs[f]]] : x \in outs}

\* A name-based checker with its own verbosity.
NewWatching(st, e) ==
  {[x EXCEPT !.st.verb = Put(@, e.id, e.verb)] : x \in NewStd(st, e)}

WatOutcomes(st, e) ==
  CASE e.op = "watch" -> One([st EXCEPT !.level = LevelOf(e.env)], [r |-> ToString(LevelOf(e.env))])
    [] e.op = "wstd" -> NewWatching(st, e)
    [] e.op \in {"check", "access", "canaccess", "canwrite"} -> WithLog(ChkOutcomes(st, e), Reports(st, e))
    [] OTHER -> ChkOutcomes(st, e)

WatInv(st) == TRUE
WatSetFields == ChkSetFields \cup {"log"}
=============================================================================
