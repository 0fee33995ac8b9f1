--------------------------- MODULE MCInteractions ---------------------------
(* Interactions of two threads; participations of two interactions; policy  *)
(* decisions; testing helpers - according to Part.                          *)
EXTENDS Interactions
CONSTANTS Part0
VARIABLES st, last

TheSetup == 
  <<[op |-> "part", id |-> "p", prin |-> "u", how |-> "stub"], [op |-> "part", id |-> "q", prin |-> "system", how |-> "eq"],
    [op |-> "grant", perms |-> <<"g">>]>>
Ts == IF Part0 \in {"threads", "slow"} THEN {"t0", "t1"} ELSE {"t0"}
Ids == IF Part0 = "policy" THEN {"i1", "i2"} ELSE {"i1", "i2", "i3"}
\* interactions that can still matter
Live(s) == {Cur(s, t) : t \in Ts} \cup {Prev(s, t) : t \in Ts} \cup {s.parts[p].of : p \in {"p", "q"}}
           \cup {s.pend[t].id : t \in {t \in DOMAIN s.pend : "id" \in DOMAIN s.pend[t]}}
Free(s) == {i \in Ids : i \notin Live(s)}
NextId(s) == IF Free(s) = {} THEN {} ELSE
             {IF "i1" \in Free(s) THEN "i1" ELSE IF "i2" \in Free(s) THEN "i2" ELSE "i3"}
Busy(s) == DOMAIN s.pend
Idle(s) == Ts \ Busy(s)
Known(s) == Live(s) \cap Ids \cap DOMAIN s.inters
Management(s) ==
  {[op |-> o, t |-> t] : o \in {"end", "restore", "query", "get", "cleanup"}, t \in Idle(s)}
  \cup {[op |-> "dies", t |-> t] : t \in Idle(s) \ {"t0"}}
  \cup {[op |-> "probe", t |-> t, perm |-> p] : t \in Idle(s), p \in {"x", "PUBLIC"}}
  \cup {[op |-> "check", t |-> t, perm |-> p, i |-> ""] : t \in Idle(s), p \in {"x", "PUBLIC"}}
TheCalls(s) ==
  CASE Part0 = "threads" ->
         Management(s)
         \cup {[op |-> "new", t |-> t, id |-> i, parts |-> <<>>] : t \in Ts, i \in NextId(s)}
         \cup {[op |-> "setpol", t |-> "t0", pol |-> p] : p \in {"permissive", "failing", "paranoid"} \ {s.policy}}
    [] Part0 = "slow" ->
         {[op |-> o, t |-> t] : o \in {"end", "restore", "query"}, t \in Idle(s)}
         \cup {[op |-> "newstart", t |-> t, id |-> i, parts |-> <<"p">>] : t \in Idle(s), i \in IF s.policy = "slow" THEN NextId(s) ELSE {}}
         \cup {[op |-> "newfinish", t |-> t] : t \in Busy(s)}
         \cup {[op |-> "setpol", t |-> t, pol |-> p] : t \in Idle(s) \cap {"t0"}, p \in {"permissive", "slow"} \ {s.policy}}
         \cup {[op |-> "new", t |-> t, id |-> i, parts |-> <<>>] : t \in Idle(s), i \in IF s.policy = "slow" THEN {} ELSE NextId(s)}
    [] Part0 = "parts" ->
         {[op |-> "end", t |-> "t0"], [op |-> "restore", t |-> "t0"], [op |-> "query", t |-> "t0"]}
         \cup {[op |-> "new", t |-> "t0", id |-> i, parts |-> ps] : i \in NextId(s),
               ps \in {<<>>, <<"p">>, <<"q", "p">>, <<"p", "p">>}}
         \cup {[op |-> o, i |-> i, p |-> p] : o \in {"add", "remove"}, i \in Known(s), p \in {"p", "q"}}
         \cup {[op |-> "list", i |-> i] : i \in Known(s)} \cup {[op |-> "of", p |-> p] : p \in {"p", "q"}}
         \cup {[op |-> "icheck", i |-> i, perm |-> "x"] : i \in Known(s)}
    [] Part0 = "policy" ->
         {[op |-> "end", t |-> "t0"], [op |-> "getpol", t |-> "t0"], [op |-> "cleanup", t |-> "t0"]}
         \cup {[op |-> "setpol", t |-> "t0", pol |-> p] : p \in {"paranoid", "permissive", "tablef"}}
         \cup {[op |-> "new", t |-> "t0", id |-> i, parts |-> ps] : i \in NextId(s), ps \in {<<>>, <<"q", "p">>}}
         \cup {[op |-> "check", t |-> "t0", perm |-> p, i |-> i] : p \in {"x", "g", "", "%equal", "PUBLIC", "NONE"}, i \in Known(s) \cup {""}}
         \cup {[op |-> "icheck", i |-> i, perm |-> p] : p \in {"x", "g", "", "PUBLIC"}, i \in Known(s)}
         \cup {[op |-> "probe", t |-> "t0", perm |-> p] : p \in {"x", "g", "", "PUBLIC"}}
         \cup {[op |-> "setprin", id |-> "p", prin |-> p] : p \in {"system", "eqsys"}}
         \cup {[op |-> "remove", i |-> i, p |-> p] : p \in {"p"}, i \in Known(s) \ {x \in Known(s) : Tableish(s.inters[x].pol)}}
    [] Part0 = "testing" ->
         {[op |-> "end", t |-> "t0"], [op |-> "query", t |-> "t0"], [op |-> "restore", t |-> "t0"]}
         \cup {[op |-> "setpol", t |-> "t0", pol |-> p] : p \in {"paranoid", "tablef", "failing"} \ {s.policy}}
         \cup {[op |-> "create", t |-> "t0", id |-> i, p |-> "r" \o i, prin |-> "bob"] : i \in NextId(s)}
         \cup {[op |-> "enter", t |-> "t0", id |-> i, p |-> "r" \o i, prin |-> "bob", cm |-> c] : i \in NextId(s), c \in {"a", "b"} \ DOMAIN s.cms}
         \cup {[op |-> "exit", t |-> "t0", cm |-> c, how |-> h] : c \in {"a", "b"}, h \in {"normal", "ValueError", "KeyboardInterrupt"}}
         \cup {[op |-> "list", i |-> i] : i \in Known(s)}
         \cup {[op |-> "probe", t |-> "t0", perm |-> "x"]}

Norm(s) == [s EXCEPT !.inters = [i \in DOMAIN s.inters \cap Live(s) |-> s.inters[i]],
                     !.parts = [p \in {x \in DOMAIN s.parts : x \in {"p", "q"} \/ s.parts[x].of \in Live(s)} |-> s.parts[p]]]
TheKey(s) == Norm(s)
INSTANCE MCBase WITH InitOf <- InterInit, Outcomes <- InterOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"mc"}, Key <- TheKey
InterView == Norm(st)

ev == last'.e
ob == last'.obs
Changes(t) == Cur(st', t) # Cur(st, t) \/ Prev(st', t) # Prev(st, t)
Starts == {"new", "newstart", "newfinish", "create", "enter"}
C12 ==
  /\ \A t \in Ts : Changes(t) => "t" \in DOMAIN ev /\ ev.t = t
  /\ ev.op \in {"new", "newstart", "create"} =>
       IF Cur(st, ev.t) # NONE THEN ob.r = "error" /\ ob.arg = "ExistingInteraction" /\ st' = st
       ELSE ob.r # "error" \/ ob.arg # "ExistingInteraction"
  /\ ev.op \in Starts /\ ob.r = "error" => ~Changes(ev.t)
  /\ ev.op \in Starts \ {"newstart", "enter"} /\ ob.r = "done" => Cur(st', ev.t) # NONE /\ Prev(st', ev.t) = Prev(st, ev.t)
  /\ ev.op \in {"end", "cleanup"} => Cur(st', ev.t) = NONE /\ Prev(st', ev.t) = Cur(st, ev.t)
  /\ ev.op = "restore" => Cur(st', ev.t) = Prev(st, ev.t) /\ Prev(st', ev.t) = Prev(st, ev.t)
  /\ ev.op = "query" => ob.arg = Cur(st, ev.t)
  /\ ev.op = "get" => IF Cur(st, ev.t) = NONE THEN ob.r = "nointeraction" ELSE ob.arg = Cur(st, ev.t)
  /\ ev.op = "probe" /\ Cur(st, ev.t) = NONE => ob.r = IF ev.perm = PUBLIC THEN "ok" ELSE "nointeraction"
C13 ==
  /\ InterInv(st')
  /\ ev.op = "add" => IF st.parts[ev.p].of = NONE THEN ob.r = "done" /\ st'.parts[ev.p].of = ev.i ELSE ob.r = "error" /\ st' = st
  /\ ev.op = "remove" =>
       IF st.parts[ev.p].of = ev.i
       THEN ob.r = "done" /\ st'.parts[ev.p].of = NONE
            /\ \A p \in DOMAIN st.parts \ {ev.p} : st'.parts[p] = st.parts[p]
       ELSE ob.r = "error" /\ st' = st
  /\ ev.op \in {"end", "restore", "query", "list", "of", "check"} => st'.parts = st.parts
C14 ==
  /\ ev.op \in {"check", "probe"} /\ ev.perm = PUBLIC => ob.r \in {"true", "ok"} /\ ob.asked = {}
  /\ ev.op = "check" /\ ev.perm = NONE => ob.r = "true" /\ ob.asked = {}
  /\ ev.op = "icheck" /\ st.inters[ev.i].pol = "permissive" => ob.r = "true"
  /\ ev.op = "icheck" /\ st.inters[ev.i].pol = "paranoid" /\ ev.perm # PUBLIC =>
       (ob.r = "true") = \A p \in DOMAIN st.parts : st.parts[p].of = ev.i => st.parts[p].prin = "system"
  /\ ev.op = "check" /\ ev.perm \notin {PUBLIC, NONE} /\ ev.i = "" /\ Cur(st, ev.t) = NONE => ob.r = "nointeraction"
  /\ ev.op = "check" /\ ev.i # "" /\ ev.perm \notin {PUBLIC, NONE} => ob.arg = ev.i
  /\ ev.op = "setpol" => ob.arg = st.policy /\ st'.policy = ev.pol /\ st'.inters = st.inters /\ st'.cur = st.cur
  /\ ev.op = "cleanup" => st'.policy = "paranoid"
  /\ ev.op \notin {"setpol", "cleanup"} => st'.policy = st.policy
  /\ ev.op = "new" /\ ob.r = "done" => st'.inters[ev.id].pol = st.policy
C23 ==
  /\ ev.op = "create" /\ ob.r = "done" => Len(st'.inters[ev.id].parts) = 1 /\ st'.parts[ev.p].prin = ev.prin /\ st'.cur[ev.t] = ev.id
  /\ ev.op = "enter" /\ Cur(st, ev.t) # NONE => ob.arg = "nothing" /\ ~Changes(ev.t)
  /\ ev.op = "enter" /\ Cur(st, ev.t) = NONE /\ ob.r = "done" => ob.arg = ev.prin /\ Cur(st', ev.t) = ev.id
  /\ ev.op = "exit" /\ ob.r # "none" /\ st.cms[ev.cm] => Cur(st', ev.t) = NONE
  /\ ev.op = "exit" /\ ob.r # "none" /\ ~st.cms[ev.cm] => ~Changes(ev.t)

Props == [][C12 /\ C13 /\ C14 /\ C23]_mcvars
=============================================================================
