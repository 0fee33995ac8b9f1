---------------------------- MODULE Permissions ----------------------------
(***************************************************************************)
(* Which permission ids are defined, and the listings of them.             *)
(*                                                                         *)
(*   ids    id -> its characters, as numbers; ids are sorted by these      *)
(*   perms  permission object -> [id, title, desc] it was given            *)
(*   up     context -> the context it falls back to; "" is the global one  *)
(*   regs   context -> id -> permission object registered there            *)
(*   site   the context that is meant where none is given                  *)
(*   conf   the sites for which configure.zcml was loaded                              *)
(***************************************************************************)
EXTENDS Lib
PublicId == "zope.Public"
PermInit(impl) == [impl |-> impl, ids |-> Empty, perms |-> Empty, up |-> Empty, regs |-> Put(Empty, "", Empty),
                   site |-> "", conf |-> {}]

\* ---- looking up
RECURSIVE Chain(_, _)
Chain(st, c) == IF c = "" THEN <<"">> ELSE <<c>> \o Chain(st, st.up[c])
Where(st, c) == IF c = "NONE" THEN st.site ELSE c
RECURSIVE Find(_, _, _)
Find(st, chain, id) ==
  IF chain = <<>> THEN "none"
  ELSE IF id \in DOMAIN Get(st.regs, Head(chain), Empty) THEN st.regs[Head(chain)][id]
  ELSE Find(st, Tail(chain), id)
RECURSIVE FoundIn(_, _, _)
FoundIn(st, chain, id) ==
  IF id \in DOMAIN Get(st.regs, Head(chain), Empty) THEN Head(chain) ELSE FoundIn(st, Tail(chain), id)
Lookup(st, c, id) == Find(st, Chain(st, Where(st, c)), id)
Defined(st, c) == UNION {DOMAIN Get(st.regs, x, Empty) : x \in ToSet(Chain(st, Where(st, c)))}

\* ---- sorting
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
              ELSE Less(Tail(a), Tail(b))
RECURSIVE Sorted(_, _)
Sorted(st, s) == IF s = {} THEN <<>>
                 ELSE LET m == CHOOSE m \in s : \A x \in s \ {m} : Less(st.ids[m], st.ids[x]) IN
                      <<m>> \o Sorted(st, s \ {m})

\* ---- listings
Num(s) == ToString(Cardinality(s))
List(st, c) == LET d == Defined(st, c) \ {PublicId} IN [r |-> "list", set |-> d, n |-> Num(d)]
Vocabulary(st, c) ==
  LET d == Defined(st, c) IN
  \* a vocabulary has no two terms of one value
  IF \E x, y \in d : x # y /\ Lookup(st, c, x) = Lookup(st, c, y) THEN [r |-> "error", arg |-> "ValueError"]
  ELSE [r |-> "list", set |-> {x \o "=" \o Lookup(st, c, x) : x \in d}, n |-> Num(d)]
IdVocabulary(st, c) ==
  LET d == Defined(st, c)
      rest == Sorted(st, d \ {PublicId})
      term(id) == id \o "|" \o id \o "|" \o id IN
  [r |-> "terms", seq |-> (IF PublicId \in d THEN <<PublicId \o "|Public|PUBLIC">> ELSE <<>>)
                          \o [k \in 1..Len(rest) |-> term(rest[k])]]

\* ---- the standard permissions
Std == [p \in {"zope.View", "zope.Security", "zope.ManageContent", "zope.ManageServices", "zope.ManageSite", PublicId} |->
         CASE p = PublicId -> [id |-> p, title |-> "Public",
                               desc |-> "Special permission indicating unconditional access. Public resources are always accessible."]
           [] p = "zope.View" -> [id |-> p, title |-> "View", desc |-> ""]
           [] p = "zope.Security" -> [id |-> p, title |-> "Change security settings", desc |-> ""]
           [] p = "zope.ManageContent" -> [id |-> p, title |-> "Manage Content", desc |-> ""]
           [] p = "zope.ManageServices" -> [id |-> p, title |-> "Manage Services", desc |-> ""]
           [] p = "zope.ManageSite" -> [id |-> p, title |-> "Manage Site", desc |-> ""]]
\* made by a directive (in the site) or helper: named after its id and where
\* it is registered (observations do not tell where)
Made(c, id) == "made " \o id \o "@" \o c
Defs(st, c, ps, f) == [st EXCEPT !.regs[c] = [x \in DOMAIN @ \cup ps |-> IF x \in ps THEN "made " \o x ELSE @[x]],
                              !.perms = [x \in DOMAIN @ \cup {Made(c, p) : p \in ps} |->
                                           IF \E p \in ps : x = Made(c, p)
                                           THEN f[CHOOSE p \in ps : x = Made(c, p)] ELSE @[x]]]
The(st, c, id) == LET p == Lookup(st, c, id) IN
  st.perms[IF p = "made " \o id THEN Made(FoundIn(st, Chain(st, Where(st, c)), id), id) ELSE p]

PermOutcomes(st, e) ==
  CASE e.op = "id" -> Fine([st EXCEPT !.ids = Put(@, e.id, e.cps)])
    [] e.op = "perm" -> Fine([st EXCEPT !.perms = Put(@, e.p, [id |-> e.id, title |-> e.title, desc |-> e.desc])])
    [] e.op = "ctx" -> Fine([st EXCEPT !.up = Put(@, e.c, e.up), !.regs = Put(@, e.c, Empty)])
    [] e.op = "site" -> Fine([st EXCEPT !.site = e.c])
    [] e.op = "reg" -> Fine([st EXCEPT !.regs[e.c] = Put(@, e.id, e.p)])
    [] e.op = "unreg" -> One([st EXCEPT !.regs[e.c] = Drop(@, e.id)],
                             [r |-> IF e.id \in DOMAIN st.regs[e.c] THEN "yes" ELSE "no"])
    [] e.op = "check" -> IF Lookup(st, e.c, e.id) = "none" THEN Fails(st, "ValueError") ELSE Fine(st)
    [] e.op = "checkpublic" -> Fine(st)
    [] e.op = "list" -> One(st, List(st, e.c))
    [] e.op = "vocab" -> IF e.util /\ ToSet(Chain(st, st.site)) \cap st.conf = {} THEN Fails(st, "none") ELSE One(st, Vocabulary(st, e.c))
    [] e.op = "idvocab" -> IF e.util /\ ToSet(Chain(st, st.site)) \cap st.conf = {} THEN Fails(st, "none") ELSE One(st, IdVocabulary(st, e.c))
    [] e.op = "read" -> One(st, LET p == Lookup(st, e.c, e.id) IN
                                 IF p = "none" THEN [r |-> "none"]
                                 ELSE [r |-> "perm", id |-> The(st, e.c, e.id).id, title |-> The(st, e.c, e.id).title,
                                       desc |-> The(st, e.c, e.id).desc])
    [] e.op = "zcml" -> Fine(Defs(st, st.site, {e.id}, Put(Empty, e.id, [id |-> e.id, title |-> e.title, desc |-> e.desc])))
    [] e.op = "public" -> Fine(Defs(st, "", {PublicId}, Put(Empty, PublicId,
         [id |-> PublicId, title |-> "Public", desc |-> "-"])))
    [] e.op = "std" -> Fine([Defs(st, st.site, DOMAIN Std, Std) EXCEPT !.conf = @ \cup {st.site}])

PermInv(st) == TRUE
PermSetFields == {"set"}
=============================================================================
