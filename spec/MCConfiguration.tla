-------------------------- MODULE MCConfiguration --------------------------
(* All small configurations of classes, modules, and permissions.           *)
EXTENDS Configuration
CONSTANTS Part
VARIABLES st, last

S(s, perm, attrs, ifaces, setattrs, schemas, like) ==
  [s |-> s, perm |-> perm, attrs |-> attrs, ifaces |-> ifaces, setattrs |-> setattrs, schemas |-> schemas, like |-> like]
Req(perm, attrs) == S("require", perm, attrs, <<>>, <<>>, <<>>, "")
N == <<>>
Cls(c, subs) == [d |-> "class", c |-> c, subs |-> subs]
Mod(m, subs) == [d |-> "module", m |-> m, subs |-> subs]
M(s, perm, attrs, ifaces) == [s |-> s, perm |-> perm, attrs |-> attrs, ifaces |-> ifaces]
P(id) == [d |-> "permission", id |-> id]
Redef(f, t) == [d |-> "redefine", from |-> f, to |-> t]
Inc(items) == [d |-> "include", items |-> items]
Grp(items) == [d |-> "group", items |-> items]

If(id, bases, names, rw, ro) == [op |-> "iface", id |-> id, bases |-> bases, names |-> names, rw |-> rw, ro |-> ro]
Basic == <<
  [op |-> "class", id |-> "A", base |-> ""], [op |-> "class", id |-> "B", base |-> "A"],
  If("I", N, <<"x">>, N, N), If("J", <<"I">>, <<"y">>, N, N), If("S", <<"I">>, N, <<"z">>, <<"y">>),
  If("T", <<"S">>, N, <<"y">>, N)>>
TheSetup == Basic \o
  (IF Part = "perm" THEN <<>>
   ELSE <<[op |-> "config", items |-> <<P("p.one"), P("p.two"), Cls("B", <<S("require", "p.two", <<"x">>, N, <<"y">>, N, "")>>)>>],
          [op |-> "grant", perms |-> <<"p.two">>]>>)

ClassPool == {
  Req("p.one", <<"x">>), Req("p.one", <<"x", "y">>), Req("p.one", <<"x", "x">>),
  S("allow", "", <<"x">>, N, N, N, ""), S("allow", "", N, <<"I">>, N, N, ""), S("allow", "", <<"x">>, <<"J">>, N, N, ""),
  S("allow", "", N, N, N, N, ""),
  S("require", "p.two", N, <<"J">>, N, N, ""), S("require", "p.two", N, <<"I", "S">>, N, N, ""),
  S("require", "p.one", N, N, <<"x">>, N, ""), S("require", "p.one", N, N, N, <<"S">>, ""),
  S("require", "p.two", N, N, N, <<"T">>, ""), S("require", "p.one", <<"y">>, N, <<"y">>, N, ""),
  S("require", "", N, N, N, N, "B"), S("require", "p.one", <<"x">>, N, N, N, "B"), S("require", "p.one", N, N, <<"y">>, N, "B"),
  S("require", "", N, N, N, N, ""), S("require", "p.one", N, N, N, N, ""), Req("", <<"x">>),
  Req("zope.Public", <<"z">>), Req("p.none", <<"z">>), Req("nodots", <<"z">>), S("require", "p.none", N, N, N, N, "B"),
  [s |-> "implements", ifaces |-> <<"I", "J">>], [s |-> "factory", id |-> ""], [s |-> "factory", id |-> "f.one"]}
ModPool == {
  M("allow", "", <<"x">>, N), M("allow", "", <<"x", "x">>, <<"I">>), M("require", "p.one", <<"x">>, N), M("require", "p.two", N, <<"J", "I">>),
  M("allow", "", N, <<"S">>), M("allow", "", N, N), M("require", "p.none", <<"z">>, N), M("require", "nodots", <<"z">>, N),
  M("require", "", <<"z">>, N), M("require", "zope.Public", <<"z">>, N), M("require", "p.two", <<"__name__">>, N)}
RedefPool == {
  P("a.a"), P("b.b"), P("c.c"), Redef("a.a", "b.b"), Redef("b.b", "c.c"), Redef("a.a", "c.c"), Cls("A", <<Req("a.a", <<"x">>)>>),
  Cls("A", <<Req("b.b", <<"y">>)>>),
  Inc(<<Redef("a.a", "c.c"), Cls("A", <<Req("a.a", <<"z">>)>>), Cls("A", <<Req("b.b", <<"z2">>)>>)>>),
  Inc(<<Cls("A", <<Req("a.a", <<"x">>)>>), P("a.a")>>),
  Grp(<<Redef("a.a", "zope.Public"), Cls("A", <<S("require", "a.a", N, N, <<"x">>, N, "")>>)>>)}
AllP == <<P("a.a"), P("b.b"), P("c.c")>>
Up(n, pool) == UNION {[1..k -> pool] : k \in 1..n}
Configs ==
  CASE Part = "class" -> {<<Cls("A", ss)>> : ss \in Up(2, ClassPool)}
    [] Part = "module" -> {<<Mod("m", ss)>> : ss \in Up(2, ModPool)}
                          \cup {<<Mod("m", <<a>>), Mod(m, <<b>>)>> : a \in ModPool, b \in ModPool, m \in {"m", "o"}}
    [] Part = "perm" -> Up(2, RedefPool) \cup {AllP \o is : is \in Up(3, RedefPool \ ToSet(AllP))}
Fresh(s) == IF Part = "perm" THEN s.reg = Empty
            ELSE DOMAIN s.reg = {"B"} /\ s.impls = {} /\ s.facs = Empty /\ s.mods = Empty
Names == {"x", "y", "z"}
TheCalls(s) ==
  (IF Fresh(s) /\ (Part # "perm" \/ s.perms = {}) THEN {[op |-> "config", items |-> c] : c \in Configs} ELSE {})
  \cup {[op |-> "dump", c |-> c] : c \in {"A", "B"}}
  \cup (IF Part = "module" THEN
          {[op |-> "mdump", m |-> m] : m \in {"m", "o"}}
          \cup {[op |-> "mprobe", m |-> m, name |-> n] : m \in {"m", "o"}, n \in Names \cup {"__name__", "w"}}
          \cup {[op |-> "mset", m |-> "m", name |-> n] : n \in {"x"}}
        ELSE IF Part = "class" THEN
          {[op |-> "probe", c |-> c, kind |-> k, name |-> n] : c \in {"A", "B"}, k \in {"get", "set"}, n \in Names}
          \cup {[op |-> "implements", i |-> i, up |-> <<"B", "A">>] : i \in {"I", "S"}}
          \cup {[op |-> "factory", id |-> i] : i \in {"class A", "f.one"}}
        ELSE {[op |-> "perm", id |-> i] : i \in {"a.a", "b.b"}})

TheKey(s) == [x \in DOMAIN s \ {"n", "cells", "reg"} |-> s[x]] @@ [tabs |-> [c \in DOMAIN s.reg |-> s.cells[s.reg[c]]]]
INSTANCE MCBase WITH InitOf <- ConfInit, Outcomes <- ConfOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey
ConfView == TheKey(st)

ev == last'.e
ob == last'.obs
\* All that the configuration says of class A, said flatly (no includes).
Subs == LET F(it) == IF it.d = "class" THEN it.subs ELSE <<>> IN Flat([k \in 1..Len(ev.items) |-> F(ev.items[k])])
ReadNames(s) == ToSet(s.attrs) \cup UNION {NamesOf(st, i) : i \in ToSet(s.ifaces)}
WriteNames(s) == ToSet(s.setattrs) \cup UNION {{n \in NamesOf(st, i) : KindOf(st, i, n) = "rw"} : i \in ToSet(s.schemas)}
IsReq(s) == s.s \in {"require", "allow"}
C15 == (Part = "class" /\ ev.op = "config") =>
  /\ ob.r \in {"rejected", "conflict"} => st' = st
  /\ ob.r = "done" =>
      \A n \in Names \cup {"w"} :
        LET says(kind) == {k \in 1..Len(Subs) : IsReq(Subs[k]) /\ n \in (IF kind = "get" THEN ReadNames(Subs[k]) ELSE WriteNames(Subs[k]))}
            likes == {k \in 1..Len(Subs) : IsReq(Subs[k]) /\ Subs[k].like # ""}
            tab(s, c, kind) == IF kind = "get" THEN Tables(s, c).get ELSE Tables(s, c).set IN
        \A kind \in {"get", "set"} :
          /\ Cardinality(says(kind)) <= 1
          /\ \A k \in says(kind) : (\A l \in likes : l <= k) =>
               tab(st', "A", kind)[n] = (IF Subs[k].s = "allow" THEN PUBLIC ELSE Meaning(Subs[k].perm))
          /\ says(kind) = {} =>
               Get(tab(st', "A", kind), n, NONE) = IF likes # {} THEN Get(tab(st, "B", kind), n, NONE) ELSE NONE
          /\ tab(st', "B", kind) = tab(st, "B", kind)
  /\ (\E k \in 1..Len(Subs) : Subs[k].s = "require" /\ Subs[k].perm = "" /\ ReadNames(Subs[k]) \cup WriteNames(Subs[k]) # {}) => ob.r = "rejected"
C16 == (Part = "module" /\ ev.op = "config") =>
  /\ ob.r \in {"rejected", "conflict"} => st' = st
  /\ ob.r = "done" => \A n \in Names \cup {"w", "__name__"}, m \in {"m", "o"} :
       LET says == {<<k, l>> \in (1..Len(ev.items)) \X (1..2) :
                      ev.items[k].m = m /\ l <= Len(ev.items[k].subs) /\ n \in ReadNames(ev.items[k].subs[l])} IN
       /\ Cardinality(says) <= 1
       /\ says = {} => (ModDecision(st', m, n).r = "ok") = (n = "__name__")
       /\ \A x \in says : LET s == ev.items[x[1]].subs[x[2]] IN
            (ModDecision(st', m, n).r = "ok") = (s.s = "allow" \/ s.perm \in {"zope.Public", "p.two"})
C17 == (ev.op = "config" /\ Part = "perm") =>
  /\ ob.r = "done" => \A t \in {"get", "set"}, n \in {"x", "y", "z", "z2"} :
       LET p == Get(IF t = "get" THEN Tables(st', "A").get ELSE Tables(st', "A").set, n, NONE) IN
       p \in st'.perms \cup {PUBLIC, NONE}
  /\ ob.r \in {"rejected", "conflict"} => st' = st
  \* with a single redefinition at the top level, what is used before it and after it
  /\ ob.r = "done" /\ Len(ev.items) = 6 /\ ev.items[5] = Redef("a.a", "b.b") /\ ev.items[6].d = "class" /\ ev.items[4].d = "class"
       /\ ev.items[6].subs[1].perm = "a.a" => Tables(st', "A").get["x"] = "b.b"
Props == [][C15 /\ C16 /\ C17]_mcvars
=============================================================================
