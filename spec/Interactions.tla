---------------------------- MODULE Interactions ----------------------------
(***************************************************************************)
(* Security management: the policy, the interactions of each thread and    *)
(* the participations.                                                     *)
(*                                                                         *)
(*   policy   the current default policy                                   *)
(*   cur      thread -> its current interaction (absent: none)             *)
(*   prev     thread -> what its last ending removed (absent: nothing)     *)
(*   inters   interaction -> [pol, parts]; parts in order of joining       *)
(*   parts    participation -> [prin, of]; `of' the interaction or NONE    *)
(*   pend     thread -> a newInteraction or check under way in the policy  *)
(*   cms      context managers that are open -> whether they began one     *)
(*   grant    what the interactions of "table" policies grant              *)
(*                                                                         *)
(* Policies: paranoid, permissive; eqsub, a paranoid one whose             *)
(* interactions are equal and false values; table and tablef, with their own *)
(* interactions that answer from `grant', record what they are asked, and  *)
(* are false values for tablef; failing, which raises; slow, a paranoid    *)
(* one during whose creation other threads run.                            *)
(***************************************************************************)
EXTENDS Lib

PUBLIC == "PUBLIC"
NONE == "NONE"
Tableish(pol) == pol \in {"table", "tablef", "slowtable"}

InterInit(impl) == [impl |-> impl, policy |-> "paranoid", cur |-> Empty, prev |-> Empty, inters |-> Empty,
                    parts |-> Empty, pend |-> Empty, cms |-> Empty, grant |-> {}]

Cur(st, t) == Get(st.cur, t, NONE)
Prev(st, t) == Get(st.prev, t, NONE)
Ans(r, arg) == [r |-> r, arg |-> arg]

\* ---- participations
Joins(st, i, p) == [st EXCEPT !.inters[i].parts = Append(@, p), !.parts[p].of = i]
RECURSIVE JoinAll(_, _, _)
\* Those before the first one that belongs to an interaction join.
JoinAll(st, i, ps) ==
  IF ps = <<>> THEN [ok |-> TRUE, st |-> st]
  ELSE IF st.parts[Head(ps)].of # NONE THEN [ok |-> FALSE, st |-> st]
  ELSE JoinAll(Joins(st, i, Head(ps)), i, Tail(ps))

AddP(st, e) ==
  IF st.parts[e.p].of # NONE THEN Fails(st, "ValueError") ELSE Fine(Joins(st, e.i, e.p))
RemoveP(st, e) ==
  IF st.parts[e.p].of # e.i THEN Fails(st, "ValueError")
  ELSE Fine([st EXCEPT !.parts[e.p].of = NONE,
                       !.inters[e.i].parts = SelectSeq(@, LAMBDA q : q # e.p)])

\* ---- starting
Att(st, st2, ps) == {p \in ToSet(ps) : st.parts[p].of = NONE /\ st2.parts[p].of # NONE}
\* Policy `pol' makes interaction i for participations ps in thread t.
Make(st0, t, i, ps, pol) ==
  LET st == [st0 EXCEPT !.inters = Drop(@, i)]
      blank == [st EXCEPT !.inters = Put(@, i, [pol |-> pol, parts |-> <<>>])]
      set(s) == [s EXCEPT !.cur = Put(@, t, i)] IN
  CASE pol = "failing" -> One(st, [r |-> "error", arg |-> "PolicyError", att |-> {}])
    [] Tableish(pol) -> One(set([st EXCEPT !.inters = Put(@, i, [pol |-> pol, parts |-> ps])]),
                            [r |-> "done", arg |-> "", att |-> {}])
    [] OTHER ->
        LET j == JoinAll(blank, i, ps) IN
        IF j.ok THEN One(set(j.st), [r |-> "done", arg |-> "", att |-> Att(st, j.st, ps)])
        ELSE \* no interaction; the first participations may have joined one nobody uses
             {[st |-> j.st, obs |-> [r |-> "error", arg |-> "ValueError", att |-> Att(st, j.st, ps)]]}
             \cup IF st.impl = "mc" THEN {}
                  ELSE {[st |-> st, obs |-> [r |-> "error", arg |-> "ValueError", att |-> {}]]}
Existing(st) == One(st, [r |-> "error", arg |-> "ExistingInteraction", att |-> {}])
New(st, e) ==
  IF Cur(st, e.t) # NONE THEN Existing(st) ELSE Make(st, e.t, e.id, e.parts, st.policy)
\* The policy is asked, and other threads run before it answers.
NewStart(st, e) ==
  IF Cur(st, e.t) # NONE THEN Existing(st)
  ELSE One([st EXCEPT !.pend = Put(@, e.t, [id |-> e.id, parts |-> e.parts, pol |-> st.policy])],
           [r |-> "pending", arg |-> "", att |-> {}])
NewFinish(st, e) ==
  LET q == st.pend[e.t] IN Make([st EXCEPT !.pend = Drop(@, e.t)], e.t, q.id, q.parts, q.pol)

End(st, t) ==
  IF Cur(st, t) = NONE THEN [st EXCEPT !.prev = Drop(@, t)]
  ELSE [st EXCEPT !.prev = Put(@, t, st.cur[t]), !.cur = Drop(@, t)]
Restore(st, t) ==
  IF Prev(st, t) = NONE THEN [st EXCEPT !.cur = Drop(@, t)] ELSE [st EXCEPT !.cur = Put(@, t, st.prev[t])]

\* ---- deciding
Prins(st, i) == {st.parts[p].prin : p \in ToSet(st.inters[i].parts)}
Answer(st, i, perm) ==
  CASE Tableish(st.inters[i].pol) -> perm \in st.grant
    [] st.inters[i].pol = "permissive" -> TRUE
    [] OTHER -> perm = PUBLIC \/ Prins(st, i) \subseteq {"system"}
Asked(st, i, perm) == IF Tableish(st.inters[i].pol) THEN {perm \o "@thing"} ELSE {}
Said(b) == IF b THEN "true" ELSE "false"
Decide(st, i, perm) == [r |-> Said(Answer(st, i, perm)), arg |-> i, asked |-> Asked(st, i, perm)]
Quiet(r) == [r |-> r, arg |-> "", asked |-> {}]
\* management.checkPermission
Check(st, e) ==
  LET i == IF e.i # "" THEN e.i ELSE Cur(st, e.t) IN
  CASE e.perm \in {PUBLIC, NONE} -> Quiet("true")
    [] i = NONE -> Quiet("nointeraction")
    [] OTHER -> Decide(st, i, e.perm)
\* Reading an attribute protected by the permission through a proxy.
Probe(st, e) ==
  LET i == Cur(st, e.t) IN
  CASE e.perm = PUBLIC -> Quiet("ok")
    [] i = NONE -> Quiet("nointeraction")
    [] OTHER -> [Decide(st, i, e.perm) EXCEPT !.r = IF Answer(st, i, e.perm) THEN "ok" ELSE "unauth"]

\* ---- testing helpers
Part(st, p, prin) == [st EXCEPT !.parts = Put(@, p, [prin |-> prin, of |-> NONE])]
Create(st, e) ==
  IF Cur(st, e.t) # NONE THEN Existing(st)
  ELSE {[st |-> IF r.obs.r = "done" THEN r.st ELSE st, obs |-> IF r.obs.r = "done" THEN [r.obs EXCEPT !.arg = e.prin] ELSE r.obs]
        : r \in Make(Part(st, e.p, e.prin), e.t, e.id, <<e.p>>, st.policy)}
Enter(st, e) ==
  IF Cur(st, e.t) # NONE
  THEN One([st EXCEPT !.cms = Put(@, e.cm, FALSE)], [r |-> "done", arg |-> "nothing", att |-> {}])
  ELSE {[r EXCEPT !.st = IF r.obs.r = "done" THEN [@ EXCEPT !.cms = Put(@, e.cm, TRUE)] ELSE @] : r \in Create(st, e)}
Exit(st, e) ==
  IF e.cm \notin DOMAIN st.cms THEN One(st, [r |-> "none"])
  ELSE LET s == IF st.cms[e.cm] THEN End(st, e.t) ELSE st IN
       One([s EXCEPT !.cms = Drop(@, e.cm)], [r |-> IF e.how = "normal" THEN "done" ELSE "raised"])
Stub(e) == [id |-> e.id, title |-> IF e.title = "" THEN e.id ELSE e.title, desc |-> e.desc,
            groups |-> IF e.groups = <<>> THEN "none" ELSE e.groups[1], r |-> "principal"]

\* A finished thread leaves nothing to the one that takes its place.
Dies(st, t) == [st EXCEPT !.cur = Drop(@, t), !.prev = Drop(@, t)]

\* Calls on what was never made.
Unknown(st, e) ==
  \/ e.op \in {"setprin"} /\ e.id \notin DOMAIN st.parts
  \/ e.op \in {"add", "remove", "of"} /\ e.p \notin DOMAIN st.parts
  \/ e.op \in {"add", "remove", "list", "icheck"} /\ e.i \notin DOMAIN st.inters
  \/ e.op \in {"add", "remove"} /\ Tableish(st.inters[e.i].pol)
  \/ e.op = "check" /\ e.i \notin DOMAIN st.inters \cup {""}
  \/ e.op \in {"new", "newstart"} /\ ~(ToSet(e.parts) \subseteq DOMAIN st.parts)
  \/ e.op \in {"newfinish", "probefinish"} /\ e.t \notin DOMAIN st.pend

InterOutcomes(st, e) ==
  CASE Unknown(st, e) -> One(st, [r |-> "none"])
    [] e.op = "part" -> One(Part(st, e.id, e.prin), [r |-> "done", prin |-> e.prin, of |-> NONE])
    [] e.op = "setprin" -> Fine([st EXCEPT !.parts[e.id].prin = e.prin])
    [] e.op = "initpol" -> One(st, Ans("policy", "paranoid"))
    [] e.op = "getpol" -> One(st, Ans("policy", st.policy))
    [] e.op = "setpol" -> One([st EXCEPT !.policy = e.pol], Ans("policy", st.policy))
    [] e.op = "new" -> New(st, e)
    [] e.op = "newstart" -> NewStart(st, e)
    [] e.op = "newfinish" -> NewFinish(st, e)
    [] e.op = "end" -> Fine(End(st, e.t))
    [] e.op = "restore" -> Fine(Restore(st, e.t))
    [] e.op = "query" -> One(st, Ans("inter", Cur(st, e.t)))
    [] e.op = "get" -> One(st, IF Cur(st, e.t) = NONE THEN Ans("nointeraction", "") ELSE Ans("inter", Cur(st, e.t)))
    [] e.op = "add" -> AddP(st, e)
    [] e.op = "remove" -> RemoveP(st, e)
    [] e.op = "list" -> One(st, [r |-> "parts", seq |-> st.inters[e.i].parts])
    [] e.op = "of" -> One(st, Ans("of", st.parts[e.p].of))
    [] e.op = "grant" -> Fine([st EXCEPT !.grant = ToSet(e.perms)])
    [] e.op = "check" -> One(st, Check(st, e))
    [] e.op = "icheck" -> One(st, Decide(st, e.i, e.perm))
    [] e.op = "probe" -> One(st, Probe(st, e))
    [] e.op = "probestart" ->
         IF e.perm = PUBLIC \/ Cur(st, e.t) = NONE \/ ~Tableish(st.inters[Cur(st, e.t)].pol) THEN One(st, Probe(st, e))
         ELSE One([st EXCEPT !.pend = Put(@, e.t, [probe |-> e])], Ans("pending", ""))
    [] e.op = "probefinish" -> One([st EXCEPT !.pend = Drop(@, e.t)], Probe(st, st.pend[e.t].probe))
    [] e.op = "create" -> Create(st, e)
    [] e.op = "enter" -> Enter(st, e)
    [] e.op = "exit" -> Exit(st, e)
    [] e.op = "stub" -> One(st, Stub(e))
    [] e.op = "cleanup" -> Fine([End(st, e.t) EXCEPT !.policy = "paranoid"])
    [] e.op = "dies" -> Fine(Dies(st, e.t))

\* A participation belongs to an interaction iff that one lists it, once.
InterInv(st) ==
  \A i \in DOMAIN st.inters : ~Tableish(st.inters[i].pol) =>
    LET ps == st.inters[i].parts IN
    /\ \A k \in 1..Len(ps) : st.parts[ps[k]].of = i
    /\ \A k, l \in 1..Len(ps) : ps[k] = ps[l] => k = l
    /\ \A p \in DOMAIN st.parts : st.parts[p].of = i => p \in ToSet(ps)

InterSetFields == {"att", "asked"}
=============================================================================
