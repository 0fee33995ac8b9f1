----------------------------- MODULE MCProxying -----------------------------
(***************************************************************************)
(* Bounded exploration of Proxying, one group of operations at a time.     *)
(* Results are checked and then forgotten, so that the states are the      *)
(* contents of the permission tables, the policy and the objects.          *)
(***************************************************************************)
EXTENDS Proxying
CONSTANTS Part
VARIABLES st, last

Ret(v) == [t |-> "ret", v |-> v]
Self == [t |-> "self", v |-> ""]
Arg == [t |-> "arg", v |-> ""]
Boom == [t |-> "boom", v |-> ""]
NotImpl == [t |-> "notimpl", v |-> ""]
Held(h) == [t |-> "held", v |-> h]
NextItem == [t |-> "next", v |-> ""]

Subj(id, meths, attrs, items, c, how) ==
  [op |-> "subject", id |-> id, meths |-> meths, attrs |-> attrs, items |-> items,
   checker |-> c, how |-> how]
Prox(x, res) == [op |-> "factory", x |-> x, c |-> "", res |-> res]

Tables == <<
  [op |-> "table", id |-> "g", map |-> Empty], [op |-> "table", id |-> "s", map |-> Empty],
  [op |-> "table", id |-> "g2", map |-> Empty], [op |-> "table", id |-> "s2", map |-> Empty],
  [op |-> "std", id |-> "c", get |-> "g", set |-> "s"],
  [op |-> "std", id |-> "c2", get |-> "g2", set |-> "s2", how |-> IF Part = "shed" THEN "eq" ELSE ""],
  [op |-> "rock", id |-> "k", v |-> "i:5"] >>

---------------------------------------------------------------------------
(* Binary operators: one that does it, one that does not, one that has     *)
(* none, one that hands on what it is given, one that needs no protection. *)
BinMeths(v, w) == [n \in {"__add__", "__radd__"} |-> IF n = "__add__" THEN v ELSE w]
BinSetup(cb) == Tables \o <<
  Subj("a", BinMeths(Ret("b"), Self), Empty, <<>>, "c", "attr"),
  Subj("b", BinMeths(NotImpl, Ret("a")), Empty, <<>>, cb, "type"),
  Subj("m", Empty, Empty, <<>>, "c", "inst"),
  Subj("d", BinMeths(Arg, Arg), Empty, <<>>, "c", "func"),
  Subj("n", BinMeths(NotImpl, NotImpl), Empty, <<>>, "NOPROXY", "type"),
  Prox("a", "pa"), Prox("b", "pb"), Prox("m", "pm"), Prox("d", "pd") >>
BinHandles == {"a", "pa", "b", "pb", "m", "pm", "d", "pd", "n", "k"}
BinOps == {[op |-> "bin", name |-> "add", x |-> x, y |-> y, res |-> "r"] : x \in BinHandles, y \in BinHandles}

InMeths(v, w) == [n \in {"__iadd__", "__add__", "__radd__"} |->
                   IF n = "__iadd__" THEN v ELSE IF n = "__add__" THEN w ELSE Ret("a")]
InSetup == Tables \o <<
  Subj("a", InMeths(Self, Ret("i:1")), Empty, <<>>, "c", "attr"),
  Subj("b", InMeths(NotImpl, Ret("a")), Empty, <<>>, "c", "type"),
  Subj("m", [n \in {"__add__"} |-> NotImpl], Empty, <<>>, "c", "inst"),
  Subj("d", InMeths(Arg, Arg), Empty, <<>>, "c", "func"),
  Subj("f", InMeths(Ret("a"), Boom), Empty, <<>>, "c", "attr"),
  Prox("a", "pa"), Prox("b", "pb"), Prox("m", "pm"), Prox("d", "pd"), Prox("f", "pf") >>
InOps == {[op |-> "inplace", name |-> "add", x |-> x, y |-> y, res |-> "r"] :
            x \in {"pa", "pb", "pm", "pd", "pf", "m", "k"}, y \in {"a", "pa", "pb", "pm", "k"}}

PowMeths(v, w) == [n \in {"__pow__", "__rpow__"} |-> IF n = "__pow__" THEN v ELSE w]
PowSetup == Tables \o <<
  Subj("a", PowMeths(Ret("b"), Ret("a")), Empty, <<>>, "c", "attr"),
  Subj("b", PowMeths(NotImpl, Ret("a")), Empty, <<>>, "c", "type"),
  Subj("m", Empty, Empty, <<>>, "c", "inst"),
  Prox("a", "pa"), Prox("b", "pb"), Prox("m", "pm") >>
PowHandles == {"a", "pa", "pb", "pm", "k"}
PowOps == {[op |-> "pow3", x |-> x, y |-> y, z |-> z, res |-> "r"] :
             x \in PowHandles, y \in PowHandles, z \in PowHandles}

---------------------------------------------------------------------------
(* Operations on one object: every name against every operation.           *)
OneNames == {"__neg__", "__pos__", "__abs__", "__invert__", "__int__", "__float__", "__index__",
             "__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__", "__call__",
             "__iter__", "__next__"}
OneMeths(s) == [n \in OneNames |->
  CASE n \in {"__int__", "__index__", "__len__"} -> Ret("i:3")
    [] n = "__float__" -> Ret("f:1.5")
    [] n = "__contains__" -> Ret("i:7")
    [] n = "__iter__" -> Self
    [] n = "__next__" -> Ret("b")
    [] OTHER -> s]
OneSetup == Tables \o <<
  Subj("b", Empty, [n \in {"a"} |-> "i:1"], <<>>, "c2", "inst"),
  Subj("a", OneMeths(Ret("b")), [n \in {"a", "__name__"} |-> "b"], <<>>, "c", "type"),
  Subj("d", OneMeths(Self), [n \in {"a", "__parent__"} |-> "i:1"], <<>>, "c", "attr"),
  Subj("f", [n \in OneNames |-> Boom], Empty, <<>>, "c", "func"),
  Subj("s", [n \in {"__getitem__"} |-> Held("pa")], Empty, <<>>, "c", "attr"),
  Prox("a", "pa"), Prox("b", "pb"), Prox("d", "pd"), Prox("f", "pf"), Prox("s", "ps"),
  [op |-> "rock", id |-> "v", v |-> "i:1"] >>
OneSubj == {"pa", "pb", "pd", "pf", "ps"}
UnNames == {"neg", "pos", "abs", "invert", "int", "float", "index"}
OneOps(subj, vals) ==
  {[op |-> "un", name |-> n, x |-> x, res |-> "r"] : n \in UnNames, x \in subj}
  \cup {[op |-> o, x |-> x, k |-> "k", res |-> "r"] : o \in {"getitem"}, x \in subj}
  \cup {[op |-> "setitem", x |-> x, k |-> "k", v |-> v] : x \in subj, v \in vals}
  \cup {[op |-> "delitem", x |-> x, k |-> "k"] : x \in subj}
  \cup {[op |-> "contains", x |-> x, v |-> v] : x \in subj, v \in vals}
  \cup {[op |-> o, x |-> x] : o \in {"len", "hint"}, x \in subj}
  \cup {[op |-> "call", x |-> x, args |-> <<"pb", "k">>, res |-> "r"] : x \in subj}
  \cup {[op |-> o, x |-> x, res |-> "r"] : o \in {"iter", "next"}, x \in subj}
AttrNames == {"a", "n", "__name__", "__class__", "__parent__"}
AttrOps(subj, vals) ==
  {[op |-> "get", x |-> x, name |-> n, res |-> "r"] : x \in subj, n \in AttrNames}
  \cup {[op |-> "set", x |-> x, name |-> n, v |-> v] : x \in subj, n \in {"a", "n"}, v \in vals}
  \cup {[op |-> "del", x |-> x, name |-> n] : x \in subj, n \in {"a", "n"}}

---------------------------------------------------------------------------
(* Operations that need no permission.                                     *)
CmpNames == {"lt", "le", "eq", "ne", "gt", "ge"}
FreeMeths(s) == [n \in {"__lt__", "__le__", "__eq__", "__ne__", "__gt__", "__ge__"} |-> s]
Texts(s, r) == [n \in {"__str__", "__repr__", "__hash__", "__bool__"} |->
  CASE n = "__str__" -> s [] n = "__repr__" -> r
    [] n = "__hash__" -> Ret("i:7") [] OTHER -> Ret("False")]
Both(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN f THEN f[n] ELSE g[n]]
FreeSetup == Tables \o <<
  Subj("b", Empty, Empty, <<>>, "c", "inst"),
  Subj("a", Both(FreeMeths(Ret("b")), Texts(Ret("s:abc"), Ret("ss:x"))), Empty, <<>>, "c", "type"),
  Subj("d", Both(FreeMeths(NotImpl), Texts(Ret("ss:abc"), Ret("s:x"))), Empty, <<>>, "c", "attr"),
  Subj("e", Both(FreeMeths(Ret("True")), [n \in {"__repr__", "__len__"} |->
                 IF n = "__len__" THEN Ret("i:0") ELSE Ret("s:abc")]), Empty, <<>>, "c", "func"),
  Subj("f", Both(FreeMeths(Boom), [n \in {"__str__", "__repr__", "__hash__", "__bool__"} |-> Boom]),
       Empty, <<>>, "c", "type"),
  Subj("g", [n \in {"__str__", "__repr__"} |-> Ret("i:5")], Empty, <<>>, "c", "attr"),
  Subj("h", [n \in {"__hash__", "__bool__", "__str__", "__eq__", "__ne__", "__lt__"} |->
               IF n \in {"__hash__", "__eq__", "__ne__"} THEN [t |-> "none", v |-> ""] ELSE [t |-> "boom", v |-> "TypeError"]],
       Empty, <<>>, "c", "attr"),
  Prox("a", "pa"), Prox("b", "pb"), Prox("d", "pd"), Prox("e", "pe"), Prox("f", "pf"), Prox("g", "pg"),
  Prox("h", "ph") >>
FreeHandles == {"a", "pa", "pb", "pd", "pe", "pf", "ph", "b", "k"}
FreeOps ==
  {[op |-> "cmp", name |-> n, x |-> x, y |-> y, res |-> "r"] : n \in CmpNames, x \in FreeHandles, y \in FreeHandles}
  \cup {[op |-> o, x |-> x] : o \in {"hash", "bool", "str", "repr"},
                              x \in {"pa", "pb", "pd", "pe", "pf", "pg", "ph"}}

---------------------------------------------------------------------------
(* Making, removing and attacking proxies.                                 *)
ShedNames == {"a", "_wrapped", "_checker", "__class__", "__dict__", "__Security_checker__"}
ShedSetup == Tables \o <<
  Subj("a", Empty, [n \in {"a"} |-> "i:1"], <<>>, "c", "attr"),
  Subj("b", Empty, Empty, <<>>, "c2", "type"),
  Subj("n", Empty, Empty, <<>>, "NOPROXY", "type"),
  Subj("u", Empty, Empty, <<>>, "DEFAULT", "type"),
  Prox("a", "pa"), Prox("b", "pb"), Prox("u", "pu"),
  [op |-> "mkproxy", x |-> "pa", c |-> "c2", res |-> "ppa"],
  [op |-> "factory", x |-> "k", c |-> "c", res |-> "pk"] >>
ShedHandles == {"a", "pa", "b", "pb", "n", "u", "pu", "ppa", "k", "pk"}
ShedOps ==
  {[op |-> o, x |-> x, c |-> c, res |-> "r"] : o \in {"factory", "mkproxy"}, x \in ShedHandles, c \in {"", "c", "c2"}}
  \cup {[op |-> "protect", x |-> x, c |-> "c", res |-> "r"] : x \in ShedHandles}
  \cup {[op |-> "remove", x |-> x, res |-> "r"] : x \in ShedHandles}
  \cup {[op |-> "checkerof", x |-> x] : x \in ShedHandles}
  \cup {[op |-> "isa", x |-> x, o |-> o] : x \in ShedHandles, o \in {"a", "b"}}
  \cup {[op |-> "set", x |-> x, name |-> n, v |-> v] :
          x \in {"pa"}, n \in ShedNames \ {"__class__", "__dict__", "__Security_checker__"}, v \in {"k"}}
  \cup {[op |-> "del", x |-> x, name |-> n] :
          x \in {"pa"}, n \in ShedNames \ {"__class__", "__dict__", "__Security_checker__"}}
  \cup {[op |-> "get", x |-> x, name |-> n, res |-> "r"] :
          x \in {"pa", "pb"}, n \in ShedNames \ {"__dict__", "__Security_checker__"}}

---------------------------------------------------------------------------
Policies == {[op |-> "policy", kind |-> "none", grant |-> <<>>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<>>, fail |-> <<>>],
             [op |-> "policy", kind |-> "table", grant |-> <<"p">>, fail |-> <<>>]}
Edit(t, ns) == {[op |-> "entry", id |-> t, name |-> n, perm |-> p] : n \in ns, p \in {"PUBLIC", "p"}}
               \cup {[op |-> "noentry", id |-> t, name |-> n] : n \in ns}
\* One entry at a time
Sole(s, t, ns) ==
  IF s.tables["g"] = Empty /\ s.tables["s"] = Empty THEN {[op |-> "entry", id |-> t, name |-> n, perm |-> p] : n \in ns, p \in IF Part = "shed" THEN {"PUBLIC"} ELSE {"PUBLIC", "p"}}
  ELSE {[op |-> "noentry", id |-> t, name |-> n] : n \in DOMAIN s.tables[t]}

TheCalls(s) ==
  (IF Part = "shed" THEN {} ELSE Policies) \cup
  CASE Part = "bin" -> Edit("g", {"__add__", "__radd__"}) \cup BinOps
    [] Part = "bin2" -> Edit("g", {"__add__", "__radd__"}) \cup Edit("g2", {"__add__", "__radd__"}) \cup BinOps
    [] Part = "inplace" -> Edit("g", {"__iadd__", "__add__", "__radd__"}) \cup InOps
    [] Part = "pow3" -> Edit("g", {"__pow__", "__rpow__", "__3pow__"}) \cup PowOps
    [] Part = "one" -> Sole(s, "g", OneNames) \cup OneOps(OneSubj, {"v", "pb"})
    [] Part = "attr" -> Sole(s, "g", AttrNames) \cup Sole(s, "s", {"a", "n"})
                        \cup AttrOps({"pa"}, {"v"})
    [] Part = "free" -> Sole(s, "g", {"__str__", "__repr__", "__eq__", "__hash__", "__bool__", "__lt__"}) \cup FreeOps
    [] Part = "shed" -> Sole(s, "g", ShedNames) \cup Sole(s, "s", ShedNames) \cup ShedOps

TheSetup ==
  CASE Part = "bin" -> BinSetup("c") [] Part = "bin2" -> BinSetup("c2")
    [] Part = "inplace" -> InSetup [] Part = "pow3" -> PowSetup
    [] Part \in {"one", "attr"} -> OneSetup [] Part = "free" -> FreeSetup
    [] Part = "shed" -> ShedSetup

\* Results are forgotten, and with them what was made only for them.
Forget(s) == [s EXCEPT !.handles = Drop(@, "r"), !.proxies = Drop(@, "@r"),
                       !.objs = [o \in {x \in DOMAIN @ : @[x].of = ""} |-> @[o]]]
Remembered(s, e) == {[st |-> Forget(r.st), obs |-> r.obs, made |-> r.st] : r \in PrxOutcomes(s, e)}

TheKey(s) == <<s.impl, s.tables["g"], s.tables["s"], s.tables["g2"], s.policy,
               [o \in DOMAIN s.objs |-> s.objs[o].attrs]>>

INSTANCE MCBase WITH InitOf <- PrxInit, Outcomes <- Remembered, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c", "py"}, Key <- TheKey

---------------------------------------------------------------------------
(* The properties.                                                         *)

ev == last'.e
ob == last'.obs
Opd(f) == st.handles[ev[f]]
Refused(v, kind, name) ==
  IsProxy(st, v) /\ Decide(st, st.proxies[v].c, kind, name, st.proxies[v].val).v # "ok"
Why(v, kind, name) == Decide(st, st.proxies[v].c, kind, name, st.proxies[v].val)

\* The name an operation stands for, by the operand's place.
NameOf(f) ==
  CASE ev.op = "bin" -> IF f = "x" THEN "__" \o ev.name \o "__" ELSE "__r" \o ev.name \o "__"
    [] ev.op = "inplace" -> IF f = "x" THEN "__i" \o ev.name \o "__" ELSE "__r" \o ev.name \o "__"
    [] ev.op = "pow3" -> CASE f = "x" -> "__pow__" [] f = "y" -> "__rpow__" [] OTHER -> "__3pow__"
    [] ev.op = "un" -> "__" \o ev.name \o "__"
    [] ev.op \in {"getitem", "setitem", "delitem", "contains", "len", "call", "iter", "next"} ->
         "__" \o ev.op \o "__"
    [] ev.op = "hint" -> "__len__"
    [] ev.op \in {"get", "set", "del"} -> ev.name
KindOf == IF ev.op \in {"set", "del"} THEN "set" ELSE "get"
Guarded == {"bin", "inplace", "pow3", "un", "getitem", "setitem", "delitem", "contains", "len", "hint",
            "call", "iter", "next", "get", "set", "del"}
Operands == {"x", "y", "z"} \cap DOMAIN ev
ReachedBy(o, f) == IF IsProxy(st, Opd(f)) THEN st.proxies[Opd(f)].val = o ELSE Opd(f) = o
Touched(o) == \E k \in 1..Len(ob.eff) : Len(ob.eff[k]) > Len(o) /\ SubSeq(ob.eff[k], 1, Len(o) + 1) = o \o "."

C01 == ev.op \in Guarded /\ "eff" \in DOMAIN ob =>
  \* refused for the first operand: nothing happens
  /\ Refused(Opd("x"), KindOf, NameOf("x")) /\ ~(ev.op \in {"set", "del"} /\ Shut(st, Opd("x"), NameOf("x"))) =>
       /\ ob.r = Why(Opd("x"), KindOf, NameOf("x")).v
       /\ ob.eff = <<>> /\ st' = st
  \* an object is touched only if given bare, or through a place where its
  \* proxy grants the name the operation stands for there, or as what an
  \* iterator over it is for
  /\ \A o \in DOMAIN st.objs : Touched(o) =>
       \E f \in Operands : ReachedBy(o, f) /\ ~Refused(Opd(f), KindOf, NameOf(f))

\* What comes out of a proxy is a rock, open, or protected as selected.
C02 == ev.op \in Guarded \cup {"cmp"} /\ "val" \in DOMAIN ob /\ IsProxy(st, Opd("x")) /\ ob.r = "ok" =>
  /\ IsObj(st, ob.val) => st.objs[ob.val].checker = "NOPROXY"
  /\ \A o \in DOMAIN st.objs : \A c \in DOMAIN st.checkers :
       ob.val = "new:" \o o \o ":" \o c => st.objs[o].checker = c

\* Comparison, hash, truth as of the bare objects and without asking; text
\* never refused, and generic unless granted.
Made(v) == IF IsObj(st, v) THEN IF st.objs[v].checker = "NOPROXY" THEN v
                                ELSE "new:" \o v \o ":" \o st.objs[v].checker
           ELSE v
C03 ==
  /\ ev.op = "cmp" /\ "val" \in DOMAIN ob =>
       LET b == Cmp(st, ev.name, Bare(st, Opd("x")), Opd("y"), "r") IN
       /\ ob.asked = {}
       /\ IsProxy(st, Opd("x")) /\ ~IsProxy(st, Opd("y")) =>
            ob.r = b.v /\ (b.v = "ok" => ob.val = Made(b.val))
  /\ ev.op \in {"hash", "bool"} =>
       LET b == IF ev.op = "hash" THEN Hash(st, Bare(st, Opd("x"))) ELSE Bool(st, Bare(st, Opd("x"))) IN
       ob.asked = {} /\ ob.r = b.v /\ ob.arg = b.arg /\ (b.v = "ok" => ob.val = b.val)
  /\ ev.op \in {"str", "repr"} =>
       LET d == Why(Opd("x"), "get", "__" \o ev.op \o "__") o == st.proxies[Opd("x")].val IN
       /\ ob.r \notin {"unauth", "forbid"}
       /\ d.v # "ok" => ob.r = "ok" /\ ob.val = "generic:" \o o /\ ob.eff = <<>>
       /\ ob.r = "ok" => ob.val \in {"generic:" \o o, "default:" \o o} \cup Strings

C07 ==
  /\ \A p \in DOMAIN st.proxies : st'.proxies[p] = st.proxies[p]
  /\ ev.op = "factory" /\ IsProxy(st, Opd("x")) =>
       IF ev.c \in {"", st.proxies[Opd("x")].c} THEN ob.r = "ok" /\ ob.val = Opd("x")
       ELSE ob.r = "error" /\ ob.arg = "TypeError"
  /\ ev.op = "mkproxy" /\ ev.c = "" => ob.r = "error"
  /\ ev.op \in {"factory", "protect"} /\ ~IsProxy(st, Opd("x")) /\ IsRock(st, Opd("x"))
       /\ (ev.op = "protect" \/ ev.c = "") => ob.val = Opd("x")
  /\ ev.op = "remove" => ob.val = Bare(st, Opd("x"))
  /\ ev.op \in {"set", "del"} /\ ev.name \in Slots /\ st.impl = "py" /\ IsProxy(st, Opd("x")) =>
       ob.r = "error" /\ ob.eff = <<>>

Props == [][C01 /\ C02 /\ C03 /\ C07]_mcvars
=============================================================================
