------------------------------ MODULE Adapters ------------------------------
(***************************************************************************)
(* Adapter factories that take security into account.                      *)
(*                                                                         *)
(*   objs   object to adapt -> the names its own checker grants            *)
(*   adap   adapter -> [loc, parent, reads, rock]: whether it is           *)
(*          locatable; its parent; the names its checker grants; whether   *)
(*          it needs no protection                                         *)
(*   facs   factory -> [kind, makes]: kind "trusted", "loctrusted" or      *)
(*          "locuntrusted"; makes an adapter, "ARG" (the first argument    *)
(*          itself) or "boom" (it fails)                                   *)
(*                                                                         *)
(* References: "none", "o" the bare object, "P:o" a security proxy of it.  *)
(* What a factory returns is described by what is around the adapter from  *)
(* the outside in: S a security proxy, L a location proxy.                 *)
(***************************************************************************)
EXTENDS Lib
AdInit(impl) == [impl |-> impl, objs |-> Empty, adap |-> Empty, facs |-> Empty]

Ref(a) == IF a.p THEN "P:" \o a.o ELSE a.o
All == {"x", "y", "hidden"}

\* Attributes that can be read through what was returned.
Readable(st, secure, n) == IF secure THEN (IF n \in DOMAIN st.adap THEN st.adap[n].reads ELSE st.objs[n]) ELSE All

Call(st, e) ==
  LET f == st.facs[e.f]
      args == e.args
      some == \E k \in 1..Len(args) : args[k].p
      trusted == f.kind # "locuntrusted"
      strip == trusted /\ some
      got == [k \in 1..Len(args) |-> IF strip THEN args[k].o ELSE Ref(args[k])]
      self == f.makes = "ARG"
      n == IF self THEN args[1].o ELSE f.makes
      \* returned as it is: an argument comes proxied if it was given so
      inner == IF self THEN got[1] ELSE n
      loc == ~self /\ st.adap[n].loc
      rock == ~self /\ st.adap[n].rock
      wrap == ~loc /\ (f.kind = "locuntrusted" \/ (f.kind = "loctrusted" /\ some))
      secure == trusted /\ some /\ (~rock \/ wrap)
      sets == loc /\ st.adap[n].parent = "none"
      st1 == IF sets THEN [st EXCEPT !.adap[n].parent = got[1]] ELSE st
      bare == ~secure /\ ~(self /\ got[1] # args[1].o) IN
  IF f.makes = "boom" THEN One(st, [r |-> "Boom", got |-> got])
  ELSE One(st1, [r |-> "ok", got |-> got,
                 form |-> (IF secure THEN "S" ELSE "") \o (IF wrap THEN "L" ELSE "") \o ":" \o inner,
                 parent |-> IF loc THEN st1.adap[n].parent ELSE IF wrap THEN got[1] ELSE "-",
                 reads |-> Readable(st, ~bare, n)])

AdOutcomes(st, e) ==
  CASE e.op = "obj" -> Fine([st EXCEPT !.objs = Put(@, e.o, ToSet(e.reads))])
    [] e.op = "adapter" -> Fine([st EXCEPT !.adap = Put(@, e.a,
         [loc |-> e.loc, parent |-> e.parent, reads |-> ToSet(e.reads), rock |-> e.rock])])
    [] e.op = "factory" -> One([st EXCEPT !.facs = Put(@, e.f, [kind |-> e.kind, makes |-> e.makes])],
                               [r |-> "done", name |-> e.name, mod |-> e.mod])
    [] e.op = "call" -> Call(st, e)

AdInv(st) == TRUE
AdSetFields == {"reads"}
=============================================================================
