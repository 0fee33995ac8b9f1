------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* Checkers built from names, interfaces and lists of specifications.      *)
(*                                                                         *)
(*   ifaces   interface -> [bases, names]                                  *)
(*   built    checker -> table of reads name -> permission                 *)
(*   grant    what the current policy grants                               *)
(*                                                                         *)
(* A specification is a set of <<name, permission>> claims; building takes *)
(* the union of all claims and fails iff some name is claimed with two     *)
(* permissions.  So the order cannot matter.                               *)
(***************************************************************************)
EXTENDS Lib

PUBLIC == "PUBLIC"
NONE == "NONE"
Open == {"__class__", "__name__", "__parent__", "__repr__", "__eq__", "__hash__", "__bool__",
         "__providedBy__", "__conform__"}

BuildInit(impl) == [impl |-> impl, ifaces |-> Empty, built |-> Empty, grant |-> {}]

RECURSIVE AllNames(_, _)
AllNames(st, i) == ToSet(st.ifaces[i].names) \cup UNION {AllNames(st, b) : b \in ToSet(st.ifaces[i].bases)}

Perm(p) == IF p = "DEFAULT" THEN PUBLIC ELSE p
Map(m) == {<<n, m[n]>> : n \in DOMAIN m}
Claims(st, s) ==
  CASE s.kind = "names" -> {<<n, Perm(s.perm)>> : n \in ToSet(s.names)}
    [] s.kind = "iface" -> {<<n, Perm(s.perm)>> : n \in AllNames(st, s.iface)}
    [] s.kind = "dict" -> Map(s.map)
AllClaims(st, specs) == UNION {Claims(st, specs[k]) : k \in 1..Len(specs)}
Torn(cl) == {c[1] : c \in {d \in cl : \E x \in cl : x[1] = d[1] /\ x[2] # d[2]}}
Table(cl) == [n \in {c[1] : c \in cl} |-> (CHOOSE c \in cl : c[1] = n)[2]]

\* Keyword arguments claim as a dictionary does.
SpecsOf(e) ==
  CASE e.op = "multi" -> e.specs
    [] e.op = "names" -> <<[kind |-> "names", names |-> e.names, perm |-> e.perm], [kind |-> "dict", map |-> e.kw]>>
    [] e.op = "ifc" -> <<[kind |-> "iface", iface |-> e.iface, perm |-> e.perm], [kind |-> "dict", map |-> e.kw]>>

Build(st, e) ==
  LET cl == AllClaims(st, SpecsOf(e)) IN
  IF Torn(cl) = {} THEN Fine([st EXCEPT !.built = Put(@, e.id, Table(cl))])
  ELSE {[st |-> [st EXCEPT !.built = Drop(@, e.id)], obs |-> [r |-> "dup", arg |-> n]] : n \in Torn(cl)}

Decision(st, c, kind, name) ==
  LET p == IF kind = "set" THEN NONE ELSE Get(st.built[c], name, NONE) IN
  CASE p = PUBLIC -> [r |-> "ok", arg |-> ""]
    [] p # NONE /\ p \in st.grant -> [r |-> "ok", arg |-> ""]
    [] p # NONE -> [r |-> "unauth", arg |-> p]
    [] OTHER -> IF kind = "get" /\ name \in Open THEN [r |-> "ok", arg |-> ""]
                ELSE [r |-> "forbid", arg |-> name]

BuildOutcomes(st, e) ==
  CASE e.op = "iface" -> Fine([st EXCEPT !.ifaces = Put(@, e.id, [bases |-> e.bases, names |-> e.names])])
    [] e.op = "rebase" -> Fine([st EXCEPT !.ifaces[e.id].bases = e.bases])
    [] e.op \in {"names", "ifc", "multi"} -> Build(st, e)
    \* Changing what a checker was built from afterwards does not change it.
    [] e.op = "spoil" -> Fine(st)
    \* A checker's table is its own.
    [] e.op = "edit" -> IF e.id \in DOMAIN st.built THEN Fine([st EXCEPT !.built[e.id] = Put(@, e.name, e.perm)])
                        ELSE One(st, [r |-> "none"])
    [] e.op = "grant" -> Fine([st EXCEPT !.grant = ToSet(e.perms)])
    [] e.op = "probe" -> IF e.id \in DOMAIN st.built THEN One(st, Decision(st, e.id, e.kind, e.name))
                         ELSE One(st, [r |-> "none"])
    [] e.op = "dump" -> IF e.id \notin DOMAIN st.built THEN One(st, [r |-> "none"])
                        ELSE LET t == st.built[e.id] IN
                             One(st, [r |-> "tables", get |-> {n \o "=" \o t[n] : n \in DOMAIN t}, set |-> {}])

BuildSetFields == {"get", "set"}
=============================================================================
