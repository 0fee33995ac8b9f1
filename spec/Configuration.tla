---------------------------- MODULE Configuration ----------------------------
(***************************************************************************)
(* Configuration (ZCML).  One call executes a whole configuration: a tree  *)
(* of directives in files that include others.                             *)
(*                                                                         *)
(* Reading goes through the tree in order and gives actions; what is       *)
(* malformed makes it fail without effect.  Each action has a              *)
(* discriminator and the path of the file it comes from.  Two actions with *)
(* one discriminator conflict, and nothing takes effect, unless one comes  *)
(* from a file that includes (directly or not) all the others, which it    *)
(* then replaces.  The actions that remain are executed in order, and      *)
(* after all of them every permission used is looked up.                   *)
(*                                                                         *)
(*   reg, cells, n, classes, grant   as in Declarations                    *)
(*   ifaces   interface -> [bases, names, rw, ro]; rw and ro are its       *)
(*            writable and readonly fields                                 *)
(*   perms    ids of the registered permissions                            *)
(*   mods     module -> its table name -> permission (absent: undeclared)  *)
(*   impls    <<class, interface>> declared                                *)
(*   facs     registered factories, name -> class                          *)
(*   policy   the default policy                                           *)
(***************************************************************************)
EXTENDS Declarations

ConfInit(impl) ==
  [impl |-> impl, classes |-> {}, reg |-> Empty, cells |-> Empty, n |-> 0, grant |-> {},
   ifaces |-> Empty, perms |-> {}, mods |-> Empty, impls |-> {}, facs |-> Empty, policy |-> "paranoid"]

\* Ids that are neither dotted names with a dot nor URIs.
Malformed == {"nodots", "zope", "a b.c", "p.", ".q", "p..q", "1.2", "a-b.c"}

\* ---- interfaces
RECURSIVE NamesOf(_, _)
NamesOf(st, i) == LET d == st.ifaces[i] IN
  ToSet(d.names) \cup ToSet(d.rw) \cup ToSet(d.ro) \cup UNION {NamesOf(st, b) : b \in ToSet(d.bases)}
\* What the interface means by a name: its own definition, or the first base's.
RECURSIVE KindOf(_, _, _)
KindOf(st, i, n) ==
  LET d == st.ifaces[i] IN
  CASE n \in ToSet(d.rw) -> "rw"
    [] n \in ToSet(d.ro) -> "ro"
    [] n \in ToSet(d.names) -> "other"
    [] OTHER -> LET ks == {k \in 1..Len(d.bases) : n \in NamesOf(st, d.bases[k])} IN
                IF ks = {} THEN "none" ELSE KindOf(st, d.bases[CHOOSE k \in ks : \A l \in ks : k <= l], n)
Writable(st, i) == {n \in NamesOf(st, i) : KindOf(st, i, n) = "rw"}

RECURSIVE UpOf(_, _)
UpOf(st, i) == {i} \cup UNION {UpOf(st, b) : b \in ToSet(st.ifaces[i].bases)}

\* ---- reading
\* An action: d the discriminator (<<>> for none), a what it does
Act(d, a) == [d |-> d, a |-> a]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Over2(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]

Nothing == [acts |-> <<>>, bad |-> FALSE]
Bad == [acts |-> <<>>, bad |-> TRUE]
Acts(a) == [acts |-> a, bad |-> FALSE]
Join(x, y) == [acts |-> x.acts \o y.acts, bad |-> x.bad \/ y.bad]

\* The use of a permission id: what it means here, and that it must exist.
Use(map, p) == Get(map, p, p)
Exists(p) == IF p = PublicId THEN <<>> ELSE <<Act(<<>>, [k |-> "exists", p |-> p])>>

Reads(c, ns, p) == Over2(ns, LAMBDA n : Act(<<"read", c, n>>, [k |-> "protect", c |-> c, kind |-> "get", name |-> n, perm |-> p]))
Writes(c, ns, p) == Over2(ns, LAMBDA n : Act(<<"write", c, n>>, [k |-> "protect", c |-> c, kind |-> "set", name |-> n, perm |-> p]))
ClassSub(st, map, c, s) ==
  CASE s.s \in {"require", "allow"} ->
        LET p == IF s.s = "allow" THEN PublicId ELSE Use(map, s.perm)
            given == s.s = "allow" \/ s.perm # ""
            some == s.attrs # <<>> \/ s.ifaces # <<>> \/ s.setattrs # <<>> \/ s.schemas # <<>>
            use == IF s.s = "require" /\ given THEN Exists(p) ELSE <<>>
            like == IF s.like # "" THEN <<Act(<<>>, [k |-> "like", c |-> c, other |-> s.like])>> ELSE <<>> IN
        IF given /\ p \in Malformed THEN Bad
        ELSE IF ~some THEN (IF s.like # "" THEN Acts(use \o like) ELSE Bad)
        ELSE IF ~given THEN Bad
        ELSE Acts(use \o like
                  \o Flat(Over2(s.ifaces, LAMBDA i : Reads(c, SetToSeq(NamesOf(st, i)), p)))
                  \o Reads(c, s.attrs, p)
                  \o Writes(c, s.setattrs, p)
                  \o Flat(Over2(s.schemas, LAMBDA i : Writes(c, SetToSeq(Writable(st, i)), p))))
    [] s.s = "implements" ->
        Acts(Over2(s.ifaces, LAMBDA i : Act(<<>>, [k |-> "impl", c |-> c, i |-> i])))
    [] s.s = "factory" ->
        IF s.id \in Malformed THEN Bad
        ELSE LET id == IF s.id = "" THEN "class " \o c ELSE s.id IN
             Acts(<<Act(<<"factory", id>>, [k |-> "factory", id |-> id, c |-> c])>>)
RECURSIVE ClassSubs(_, _, _, _)
ClassSubs(st, map, c, ss) ==
  IF ss = <<>> THEN Nothing ELSE Join(ClassSub(st, map, c, Head(ss)), ClassSubs(st, map, c, Tail(ss)))

ModSub(st, map, m, s) ==
  LET p == IF s.s = "allow" THEN PublicId ELSE Use(map, s.perm)
      ns == ToSet(s.attrs) \cup UNION {NamesOf(st, s.ifaces[k]) : k \in 1..Len(s.ifaces)}   \* each once
      use == IF s.s = "require" /\ s.perm # "" THEN Exists(p) ELSE <<>> IN
  IF p \in Malformed \/ (s.s = "require" /\ s.perm = "") THEN Bad
  ELSE Acts(use \o Over2(SetToSeq(ns), LAMBDA n : Act(<<"module", m, n>>, [k |-> "module", m |-> m, name |-> n, perm |-> p])))
RECURSIVE ModSubs(_, _, _, _)
ModSubs(st, map, m, ss) ==
  IF ss = <<>> THEN Nothing ELSE Join(ModSub(st, map, m, Head(ss)), ModSubs(st, map, m, Tail(ss)))

\* What the items of one scope give.  `at' tells the files apart, `map' is
\* what permissions are redefined to here.
Mark(r, path) == [r EXCEPT !.acts = [k \in 1..Len(@) |-> [d |-> @[k].d, a |-> @[k].a, path |-> path]]]
RECURSIVE Read(_, _, _, _, _)
Read(st, items, map, path, at) ==
  IF items = <<>> THEN Nothing
  ELSE LET it == Head(items)
           here == at \o "." \o ToString(Len(items))
           rest(m) == Read(st, Tail(items), m, path, at) IN
  CASE it.d = "permission" ->
        Join(IF it.id \in Malformed THEN Bad
             ELSE Mark(Acts(<<Act(<<"permission", it.id>>, [k |-> "permission", id |-> it.id])>>), path), rest(map))
    [] it.d = "redefine" ->
        IF it.from \in Malformed \/ Use(map, it.to) \in Malformed THEN Bad
        ELSE Join(Mark(Acts(Exists(it.from) \o Exists(Use(map, it.to))), path), rest(Put(map, it.from, Use(map, it.to))))
    [] it.d = "class" -> Join(Mark(ClassSubs(st, map, it.c, it.subs), path), rest(map))
    [] it.d = "module" -> Join(Mark(ModSubs(st, map, it.m, it.subs), path), rest(map))
    [] it.d = "policy" -> Join(Mark(Acts(<<Act(<<"policy">>, [k |-> "policy", pol |-> it.pol])>>), path), rest(map))
    [] it.d = "include" -> Join(Read(st, it.items, map, Append(path, here), here), rest(map))
    [] it.d = "group" -> Join(Read(st, it.items, map, path, here), rest(map))

\* ---- conflicts
Inside(q, p) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Winner(acts, k) ==       \* action k replaces all others with its discriminator
  \A l \in 1..Len(acts) : l # k /\ acts[l].d = acts[k].d => Inside(acts[l].path, acts[k].path)
Torn(acts) == \E k \in 1..Len(acts) : acts[k].d # <<>> /\
                ~\E l \in 1..Len(acts) : acts[l].d = acts[k].d /\ Winner(acts, l)

\* ---- executing
Do(st, a) ==
  CASE a.k = "protect" -> Protect(st, a.c, a.kind, a.name, a.perm)
    [] a.k = "like" -> Like(st, a.c, a.other)
    [] a.k = "impl" -> [st EXCEPT !.impls = @ \cup {<<a.c, a.i>>}]
    [] a.k = "factory" -> [st EXCEPT !.facs = Put(@, a.id, a.c)]
    [] a.k = "module" -> [st EXCEPT !.mods = Put(@, a.m, Put(Get(@, a.m, Empty), a.name, Meaning(a.perm)))]
    [] a.k = "permission" -> [st EXCEPT !.perms = @ \cup {a.id}]
    [] a.k = "policy" -> [st EXCEPT !.policy = a.pol]
    [] a.k = "exists" -> st
RECURSIVE DoAll(_, _)
DoAll(st, acts) == IF acts = <<>> THEN st ELSE DoAll(Do(st, Head(acts).a), Tail(acts))
Wanted(acts) == {acts[k].a.p : k \in {k \in 1..Len(acts) : acts[k].a.k = "exists"}}
RECURSIVE Keep(_, _)
Keep(acts, k) == IF k > Len(acts) THEN <<>>
                 ELSE (IF acts[k].d = <<>> \/ Winner(acts, k) THEN <<acts[k]>> ELSE <<>>) \o Keep(acts, k + 1)
\* Afterwards nothing is declared, as at the start (the interfaces and classes stay).
Cleared(st) == [st EXCEPT !.reg = Empty, !.cells = Empty, !.perms = {}, !.mods = Empty, !.facs = Empty, !.impls = {},
                          !.policy = "paranoid"]
Configure(st, e) ==
  LET r == Read(st, e.items, Empty, <<"root">>, "") IN
  IF r.bad THEN One(st, [r |-> "rejected"])
  ELSE IF Torn(r.acts) THEN One(st, [r |-> "conflict"])
  ELSE LET s == DoAll(st, Keep(r.acts, 1)) IN
       IF Wanted(r.acts) \subseteq s.perms THEN Fine(s)
       \* what has been done by then is not specified; the driver undoes it
       ELSE One(Cleared(st), [r |-> "undefined"])

ModDecision(st, m, name) ==
  LET p == Get(Get(st.mods, m, Empty), name, NONE) IN
  CASE p = PUBLIC -> [r |-> "ok", arg |-> ""]
    [] p # NONE /\ p \in st.grant -> [r |-> "ok", arg |-> ""]
    [] p # NONE -> [r |-> "unauth", arg |-> p]
    [] OTHER -> IF name \in Open THEN [r |-> "ok", arg |-> ""] ELSE [r |-> "forbid", arg |-> name]

ConfOutcomes(st, e) ==
  CASE e.op = "iface" -> Fine([st EXCEPT !.ifaces = Put(@, e.id, [bases |-> e.bases, names |-> e.names, rw |-> e.rw, ro |-> e.ro])])
    [] e.op = "config" -> Configure(st, e)
    [] e.op = "mprobe" -> One(st, ModDecision(st, e.m, e.name))
    [] e.op = "mset" -> One(st, [r |-> "forbid", arg |-> e.name])      \* modules are never writable
    [] e.op = "mdump" -> One(st, IF e.m \in DOMAIN st.mods
                                 THEN LET t == st.mods[e.m] IN [r |-> "table", get |-> {n \o "=" \o t[n] : n \in DOMAIN t}]
                                 ELSE [r |-> "none", get |-> {}])
    \* (e.up: the class and its base classes)
    [] e.op = "implements" -> One(st, [r |-> IF \E x \in st.impls : x[1] \in ToSet(e.up) /\ e.i \in UpOf(st, x[2])
                                              THEN "yes" ELSE "no"])
    [] e.op = "factory" -> One(st, [r |-> "factory", arg |-> Get(st.facs, e.id, "none")])
    [] e.op = "perm" -> One(st, [r |-> IF e.id \in st.perms THEN "yes" ELSE "no"])
    [] e.op = "policy" -> One(st, [r |-> "policy", arg |-> st.policy])
    [] e.op = "cleanup" -> Fine(Cleared(st))
    [] OTHER -> DeclOutcomes(st, e)

ConfSetFields == {"get", "set"}
=============================================================================
