------------------------------ MODULE Proxying ------------------------------
(***************************************************************************)
(* Operations through security proxies: what they need, what reaches the   *)
(* wrapped object, and what is handed out.                                 *)
(*                                                                         *)
(* Extends the state of Checkers with                                      *)
(*   objs     object id -> its special methods and what they return, its   *)
(*            attributes, its pending items and the checker selected for it*)
(*   proxies  proxy id -> the value it wraps and its checker               *)
(*   handles  name -> value: what the client holds                         *)
(*                                                                         *)
(* Values are strings: object ids, proxy ids ("@" and the handle that was  *)
(* first bound to the proxy) and rocks ("i:5", "s:abc", "True", "None").   *)
(***************************************************************************)
EXTENDS Checkers

\* Checkers that are there from the start: of iterators over sequences, of
\* classes and of types without a registration.
Names(ns) == [n \in ns |-> PUBLIC]
PrxInit(impl) ==
  [impl |-> impl,
   tables |-> [t \in {"SEQITER", "TYPE", "DEFAULT", "NOSET"} |->
                CASE t = "SEQITER" -> Names({"next", "__next__", "__iter__", "__len__", "__length_hint__"})
                  [] t = "TYPE" -> Names({"__str__", "__name__", "__module__", "__bases__", "__mro__",
                                          "__implemented__"})
                  [] OTHER -> Empty],
   checkers |-> [c \in {"SEQITER", "TYPE", "DEFAULT"} |-> [t |-> "std", get |-> c, set |-> "NOSET"]],
   policy |-> [kind |-> "none", grant |-> {}, fail |-> {}],
   objs |-> Empty, proxies |-> Empty, handles |-> Empty]

IsProxy(st, v) == v \in DOMAIN st.proxies
IsObj(st, v) == v \in DOMAIN st.objs
IsRock(st, v) == ~IsProxy(st, v) /\ ~IsObj(st, v)
Truthy(v) == v \notin {"False", "None", "i:0"}

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN ""
           ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))

---------------------------------------------------------------------------
(* Partial results: state, verdict ("ok", "unauth", "forbid", "error",     *)
(* "stop", "notimpl", "missing"), argument, value, effects on wrapped      *)
(* objects in order, permissions asked.                                    *)

R(st, v, arg, val, eff, asked) ==
  [st |-> st, v |-> v, arg |-> arg, val |-> val, eff |-> eff, asked |-> asked]
Ok(st, val) == R(st, "ok", "", val, <<>>, {})
Err(st, kind) == R(st, "error", kind, "None", <<>>, {})

\* b, made after a has happened.
After(a, b) == [b EXCEPT !.eff = a.eff \o @, !.asked = @ \cup a.asked]

Checked(st, x, kind, name) ==
  LET p == st.proxies[x]
      d == Decide(st, p.c, kind, name, p.val) IN
  R(st, d.v, d.arg, "None", <<>>, d.asked)

\* What is handed out for value v: itself if it needs no protection or has
\* it already, else a new proxy, known as "@" followed by the result's name.
Protect(r, res) ==
  LET st == r.st v == r.val IN
  IF r.v # "ok" \/ ~IsObj(st, v) \/ st.objs[v].checker = "NOPROXY" THEN r
  ELSE LET id == "@" \o res IN
       [r EXCEPT !.val = id,
                 !.st = [st EXCEPT !.proxies = Put(@, id, [val |-> v, c |-> st.objs[v].checker])]]

HasMeth(st, o, name) == IsObj(st, o) /\ name \in DOMAIN st.objs[o].meths

\* The object's own special method, called with args.  Methods that fail do
\* so in a way of their own ("boom", with the kind of the error); "picky" ones
\* do not implement anything for proxies; a name may
\* also be there only to say that there is no such method ("none").
Meth(st, o, name, args) ==
  IF ~HasMeth(st, o, name)
  THEN R(st, "missing", "", "None", <<>>, {})
  ELSE LET m == st.objs[o].meths[name]
           eff == <<o \o "." \o name \o "(" \o Join(args) \o ")">> IN
       CASE m.t = "ret" -> R(st, "ok", "", m.v, eff, {})
         [] m.t = "self" -> R(st, "ok", "", o, eff, {})
         [] m.t = "arg" -> R(st, "ok", "", args[1], eff, {})
         [] m.t = "held" -> R(st, "ok", "", Get(st.handles, m.v, "None"), eff, {})
         [] m.t = "notimpl" -> R(st, "notimpl", "", "None", eff, {})
         [] m.t = "picky" -> IF \E i \in DOMAIN args : IsProxy(st, args[i])
                             THEN R(st, "notimpl", "", "None", eff, {})
                             ELSE R(st, "ok", "", m.v, eff, {})
         [] m.t = "boom" -> R(st, "error", IF m.v = "" THEN "Boom" ELSE m.v, "None", eff, {})
         [] m.t = "none" -> Err(st, "TypeError")
         [] m.t = "next" ->
              IF st.objs[o].items = <<>> THEN R(st, "stop", "", "None", eff, {})
              ELSE R([st EXCEPT !.objs[o].items = Tail(@)], "ok", "",
                     Head(st.objs[o].items), eff, {})

\* An operation by that name which the object must have.
Must(st, o, name, args) ==
  LET r == Meth(st, o, name, args) IN
  IF r.v = "missing" THEN Err(st, "TypeError") ELSE r

---------------------------------------------------------------------------
(* Binary, in-place and power operators, by value.                         *)

RECURSIVE Bin(_, _, _, _, _)
Bin(st, op, x, y, res) ==
  IF IsProxy(st, x)
  THEN LET c == Checked(st, x, "get", "__" \o op \o "__") IN
       IF c.v # "ok" THEN c
       ELSE After(c, Protect(Bin(st, op, st.proxies[x].val, y, res), res))
  ELSE LET a == Meth(st, x, "__" \o op \o "__", <<y>>) IN
       IF a.v \notin {"missing", "notimpl"} THEN a
       ELSE IF IsProxy(st, y)
       THEN LET c == After(a, Checked(st, y, "get", "__r" \o op \o "__")) IN
            IF c.v # "ok" THEN c
            ELSE After(c, Protect(Bin(st, op, x, st.proxies[y].val, res), res))
       ELSE LET b == IF y = x THEN R(st, "missing", "", "None", <<>>, {})
                     ELSE Meth(st, y, "__r" \o op \o "__", <<x>>) IN
            After(a, IF b.v \in {"missing", "notimpl"} THEN After(b, Err(st, "TypeError")) ELSE b)

RECURSIVE InPlace(_, _, _, _, _)
InPlace(st, op, x, y, res) ==
  IF IsProxy(st, x)
  THEN LET c == Checked(st, x, "get", "__i" \o op \o "__") IN
       IF c.v # "ok" THEN c
       ELSE LET r == InPlace(st, op, st.proxies[x].val, y, res) IN
            After(c, IF r.v = "ok" /\ r.val = st.proxies[x].val THEN [r EXCEPT !.val = x]
                     ELSE Protect(r, res))
  ELSE LET a == Meth(st, x, "__i" \o op \o "__", <<y>>) IN
       IF a.v \in {"missing", "notimpl"} THEN After(a, Bin(st, op, x, y, res)) ELSE a

\* pow(x, y, z).  Only the C implementation lets the second and third
\* operand's proxies take part; otherwise Python itself refuses.
IsFloat(v) == Len(v) > 2 /\ SubSeq(v, 1, 2) = "f:"

RECURSIVE Pow3(_, _, _, _, _)
Pow3(st, x, y, z, res) ==
  IF z = "None" THEN Bin(st, "pow", x, y, res)
  ELSE IF IsProxy(st, x)
  THEN LET c == Checked(st, x, "get", "__pow__") IN
       IF c.v # "ok" THEN c
       ELSE After(c, Protect(Pow3(st, st.proxies[x].val, y, z, res), res))
  ELSE LET a == Meth(st, x, "__pow__", <<y, z>>) IN
       IF a.v = "missing" /\ HasMeth(st, x, "__rpow__") THEN Err(st, "AttributeError")
       ELSE IF a.v \notin {"missing", "notimpl"} THEN a
       ELSE IF IsFloat(x) \/ IsFloat(y) THEN After(a, Err(st, "TypeError"))
       ELSE IF st.impl = "c" /\ IsProxy(st, y)
       THEN LET c == After(a, Checked(st, y, "get", "__rpow__")) IN
            IF c.v # "ok" THEN c
            ELSE After(c, Protect(Pow3(st, x, st.proxies[y].val, z, res), res))
       ELSE IF st.impl = "c" /\ IsProxy(st, z)
       THEN LET c == After(a, Checked(st, z, "get", "__3pow__")) IN
            IF c.v # "ok" THEN c
            ELSE After(c, Protect(Pow3(st, x, y, st.proxies[z].val, res), res))
       ELSE After(a, Err(st, "TypeError"))

\* Rich comparisons need no permission.
Swap(op) == CASE op = "lt" -> "gt" [] op = "le" -> "ge" [] op = "gt" -> "lt"
              [] op = "ge" -> "le" [] OTHER -> op
Booleans == {"True", "False"}

RECURSIVE Cmp(_, _, _, _, _)
Cmp(st, op, x, y, res) ==
  IF IsProxy(st, x)
  THEN Protect(Cmp(st, op, st.proxies[x].val, y, res), res)
  ELSE LET a == Meth(st, x, "__" \o op \o "__", <<y>>) IN
       IF a.v \notin {"missing", "notimpl"} THEN a
       ELSE IF a.v = "missing" /\ x = y /\ op = "eq" THEN Ok(st, "True")
       ELSE IF a.v = "missing" /\ x = y /\ op = "ne" THEN Ok(st, "False")
       ELSE IF IsProxy(st, y)
       THEN After(a, Protect(Cmp(st, Swap(op), st.proxies[y].val, x, res), res))
       ELSE LET b == Meth(st, y, "__" \o Swap(op) \o "__", <<x>>) IN
            IF b.v \notin {"missing", "notimpl"} THEN After(a, b)
            ELSE After(a, After(b,
                 CASE op = "eq" -> Ok(st, IF x = y THEN "True" ELSE "False")
                   [] op = "ne" -> Ok(st, IF x = y THEN "False" ELSE "True")
                   [] OTHER -> Err(st, "TypeError")))

---------------------------------------------------------------------------
(* Operations on one value.                                                *)

\* f applied to what x wraps if the checker grants name, with the result
\* protected; f applied to x itself if that is no proxy.
Through(st, x, name, res, f(_)) ==
  IF ~IsProxy(st, x) THEN f(x)
  ELSE LET c == Checked(st, x, "get", name) IN
       IF c.v # "ok" THEN c ELSE After(c, Protect(f(st.proxies[x].val), res))

\* Numeric conversions want a number from the object's method; the object's
\* __index__ serves if there is no other method, except in the C proxy.
Convert(st, o, name) ==
  LET a == Meth(st, o, name, <<>>) IN
  IF a.v # "missing" THEN a
  ELSE IF name = "__index__" THEN Err(st, "TypeError")
  ELSE LET b == Must(st, o, "__index__", <<>>) IN
       IF b.v = "ok" /\ name = "__float__"
       THEN [b EXCEPT !.val = "f:" \o SubSeq(@, 3, Len(@)) \o ".0"] ELSE b

Unary(st, name, x, res) ==
  Through(st, x, name, res, LAMBDA o :
    IF name \in {"__int__", "__float__", "__index__"}
    THEN IF st.impl = "c" /\ IsProxy(st, x) /\ name # "__index__"
         THEN LET a == Must(st, o, name, <<>>) IN a
         ELSE Convert(st, o, name)
    ELSE Must(st, o, name, <<>>))

GetItem(st, x, k, res) == Through(st, x, "__getitem__", res, LAMBDA o : Must(st, o, "__getitem__", <<k>>))

Drop1(r) == [r EXCEPT !.val = "None"]
\* An object with neither of the two methods is asked for its item by number.
Store(st, o, name, other, k, args) ==
  LET r == Meth(st, o, name, args) IN
  IF r.v # "missing" THEN Drop1(r)
  ELSE IF HasMeth(st, o, other) THEN Err(st, "AttributeError")
  ELSE LET n == Unary(st, "__index__", k, "") IN
       IF n.v = "ok" THEN After(n, Err(st, "TypeError")) ELSE n
SetItem(st, x, k, v) ==
  Through(st, x, "__setitem__", "", LAMBDA o : Store(st, o, "__setitem__", "__delitem__", k, <<k, v>>))
DelItem(st, x, k) ==
  Through(st, x, "__delitem__", "", LAMBDA o : Store(st, o, "__delitem__", "__setitem__", k, <<k>>))

Contains(st, x, v) ==
  Through(st, x, "__contains__", "", LAMBDA o :
    LET r == Must(st, o, "__contains__", <<v>>) IN
    IF r.v = "ok" THEN [r EXCEPT !.val = IF Truthy(r.val) THEN "True" ELSE "False"] ELSE r)

Length(st, x) == Through(st, x, "__len__", "", LAMBDA o : Must(st, o, "__len__", <<>>))

\* operator.length_hint(): the length if there is one, else the hint, which
\* no permission is asked for.
LengthHint(st, x) ==
  LET r == Length(st, x) IN
  IF r.v # "error" \/ r.arg # "TypeError" THEN r
  ELSE LET h == Meth(st, IF IsProxy(st, x) THEN st.proxies[x].val ELSE x, "__length_hint__", <<>>) IN
       After(r, IF h.v = "missing" THEN Ok(st, "i:0")
                ELSE IF h.v = "notimpl" \/ h.arg = "TypeError" THEN After(h, Ok(st, "i:0"))
                ELSE IF h.arg = "AttributeError" /\ st.impl = "c" /\ IsProxy(st, x)
                THEN After(h, Ok(st, "i:0")) ELSE h)

Call(st, x, args, res) == Through(st, x, "__call__", res, LAMBDA o : Must(st, o, "__call__", args))

\* Iteration: the object's own iterator, which must be one, or one that gets
\* items by number.
HasNext(st, v) ==
  IF IsObj(st, v) THEN st.objs[v].kind = "seqiter" \/ "__next__" \in DOMAIN st.objs[v].meths
  ELSE IsProxy(st, v)
Iter(st, x, res) ==
  Through(st, x, "__iter__", res, LAMBDA o :
    LET r == IF IsObj(st, o) /\ st.objs[o].kind = "seqiter" THEN Ok(st, o)
             ELSE Meth(st, o, "__iter__", <<>>) IN
    IF r.v = "ok" THEN IF HasNext(st, r.val) THEN r ELSE After(r, Err(st, "TypeError"))
    ELSE IF r.v # "missing" THEN r
    ELSE IF IsObj(st, o) /\ "__getitem__" \in DOMAIN st.objs[o].meths
    THEN LET it == "it:" \o res IN
         Ok([st EXCEPT !.objs = Put(@, it, [iter |-> TRUE, item |-> FALSE, checker |-> "SEQITER",
                                            meths |-> Empty, attrs |-> Empty, items |-> <<>>,
                                            pos |-> 0, of |-> o, kind |-> "seqiter", cls |-> ""])], it)
    ELSE Err(st, "TypeError"))

Next(st, x, res) ==
  Through(st, x, "__next__", res, LAMBDA o :
    IF IsObj(st, o) /\ st.objs[o].kind = "seqiter"
    THEN IF st.objs[o].pos < 0 THEN R(st, "stop", "", "None", <<>>, {}) ELSE
         LET r == Must(st, st.objs[o].of, "__getitem__", <<"i:" \o ToString(st.objs[o].pos)>>) IN
         IF r.v = "ok" THEN [r EXCEPT !.st.objs[o].pos = @ + 1]
         ELSE IF r.arg = "IndexError"        \* the end
         THEN [r EXCEPT !.v = "stop", !.arg = "", !.st.objs[o].pos = 0 - 1] ELSE r
    ELSE LET r == Meth(st, o, "__next__", <<>>) IN
         IF r.v # "missing" THEN r
         ELSE Err(st, IF st.impl = "py" /\ IsProxy(st, x) THEN "AttributeError" ELSE "TypeError"))

\* The pure-Python proxy's own slots, which nothing reaches.
Slots == {"_wrapped", "_checker"}
Shut(st, x, name) == st.impl = "py" /\ IsProxy(st, x) /\ name \in Slots

\* Attributes.  The class of an object is a value of its own, guarded by the
\* checker of classes.
GetAttr(st, x, name, res) ==
  Through(st, x, name, res, LAMBDA o :
    LET a == st.objs[o].attrs IN
    IF name = "__class__"
    THEN LET k == "class:" \o o IN
         Ok([st EXCEPT !.objs = Put(@, k, [iter |-> FALSE, item |-> FALSE, checker |-> st.objs[o].cls,
                                           meths |-> Empty, attrs |-> Empty, items |-> <<>>,
                                           pos |-> 0, of |-> o, kind |-> "class", cls |-> ""])], k)
    ELSE IF Shut(st, x, name) THEN Err(st, "AttributeError")
    ELSE IF name \in DOMAIN a THEN R(st, "ok", "", a[name], <<o \o "." \o name>>, {})
    ELSE R(st, "error", "AttributeError", "None", <<o \o "." \o name>>, {}))

Writing(st, x, name, f(_)) ==
  IF ~IsProxy(st, x) THEN f(x)
  ELSE IF Shut(st, x, name) THEN Err(st, "AttributeError")
  ELSE LET c == Checked(st, x, "set", name) IN
       IF c.v # "ok" THEN c ELSE After(c, f(st.proxies[x].val))

SetAttr(st, x, name, v) ==
  Writing(st, x, name, LAMBDA o :
    R([st EXCEPT !.objs[o].attrs = Put(@, name, v)], "ok", "", "None",
      <<o \o "." \o name \o "=" \o v>>, {}))

DelAttr(st, x, name) ==
  Writing(st, x, name, LAMBDA o :
    LET eff == <<o \o ".del " \o name>> IN
    IF name \in DOMAIN st.objs[o].attrs
    THEN R([st EXCEPT !.objs[o].attrs = Drop(@, name)], "ok", "", "None", eff, {})
    ELSE R(st, "error", "AttributeError", "None", eff, {}))

---------------------------------------------------------------------------
(* Operations that need no permission.                                     *)

Bare(st, x) == IF IsProxy(st, x) THEN st.proxies[x].val ELSE x

RECURSIVE Hash(_, _)
Hash(st, x) ==
  IF IsProxy(st, x) THEN Hash(st, st.proxies[x].val)
  ELSE LET r == Meth(st, x, "__hash__", <<>>) IN
       IF r.v = "missing" THEN Ok(st, "default:" \o x) ELSE r

RECURSIVE Bool(_, _)
Bool(st, x) ==
  IF IsProxy(st, x) THEN Bool(st, st.proxies[x].val)
  ELSE LET b == Meth(st, x, "__bool__", <<>>)
           l == Meth(st, x, "__len__", <<>>)
           r == IF b.v # "missing" THEN b ELSE l IN
       IF r.v = "missing" THEN Ok(st, "True")
       ELSE IF r.v = "ok" THEN [r EXCEPT !.val = IF Truthy(r.val) THEN "True" ELSE "False"]
       ELSE r

\* str() and repr() never fail for lack of permission.  "text" values are
\* strings; an instance of a subclass of str becomes a plain string.
Strings == {"s:abc", "s:", "s:x"}
IsText(v) == v \in Strings \/ v \in {"ss:abc", "ss:x"}
PlainText(v) == CASE v = "ss:abc" -> "s:abc" [] v = "ss:x" -> "s:x" [] OTHER -> v

\* The object's own conversion; str() falls back on the object's repr().
OwnText(st, o, name) ==
  LET a == Meth(st, o, name, <<>>)
      r == IF a.v = "missing" /\ name = "__str__" THEN Meth(st, o, "__repr__", <<>>) ELSE a IN
  IF r.v = "missing" THEN Ok(st, "default:" \o o)
  ELSE IF r.v = "ok" /\ ~IsText(r.val) THEN After(r, Err(st, "TypeError"))
  ELSE r

Text(st, x, name) ==
  IF ~IsProxy(st, x) THEN OwnText(st, x, name)
  ELSE LET c == Checked(st, x, "get", name)
           o == st.proxies[x].val
           generic == [c EXCEPT !.v = "ok", !.arg = "", !.val = "generic:" \o o] IN
       IF c.v # "ok" THEN generic
       ELSE LET r == After(c, OwnText(st, o, name)) IN
            IF r.v = "ok" /\ st.impl = "py" /\ r.val # PlainText(r.val)
            THEN After(r, Err(st, "TypeError"))      \* it comes back protected, no string
            ELSE IF r.v = "ok" THEN [r EXCEPT !.val = PlainText(@)]
            ELSE IF st.impl = "py" /\ r.arg # "TypeError"
            THEN [generic EXCEPT !.eff = r.eff, !.asked = r.asked]
            ELSE r

---------------------------------------------------------------------------
(* Making and removing proxies.                                            *)

NewProxy(st, v, c, res) ==
  LET id == "@" \o res IN
  Ok([st EXCEPT !.proxies = Put(@, id, [val |-> v, c |-> c])], id)

\* ProxyFactory(v) and ProxyFactory(v, c)
Factory(st, v, c, res) ==
  IF IsProxy(st, v)
  THEN IF c = "" \/ c = st.proxies[v].c THEN Ok(st, v) ELSE Err(st, "TypeError")
  ELSE IF c # "" THEN NewProxy(st, v, c, res)
  ELSE Protect(Ok(st, v), res)

MakeProxy(st, v, c, res) ==
  IF c = "" THEN Err(st, "ValueError") ELSE NewProxy(st, v, c, res)

---------------------------------------------------------------------------
(* The calls.  e.x, e.y, e.z, e.k, e.v, e.args name handles; e.res is the  *)
(* name that a result will be held by.  The ways in which a client makes   *)
(* them (e.via: by operator, through the sequence or the mapping protocol  *)
(* of the C API, by formatting, ...) make no difference.                   *)

H(st, h) == st.handles[h]
Hs(st, hs) == [k \in 1..Len(hs) |-> H(st, hs[k])]
Keywords(st, e) ==
  IF "kw" \notin DOMAIN e THEN <<>>
  ELSE LET given(k) == IF k \in DOMAIN e.kw THEN <<k \o "=" \o H(st, e.kw[k])>> ELSE <<>> IN
       given("a") \o given("b")

\* Without an interaction, a plain AttributeError is what a check ends in, too.
\* How the value of a call is reported: a proxy made by the call as what it
\* wraps and its checker, anything else by name.
Describe(st, v, res) ==
  IF v = "@" \o res THEN "new:" \o st.proxies[v].val \o ":" \o st.proxies[v].c
  ELSE v

NoPolicy(st, arg) == IF arg = "AttributeError" /\ st.policy.kind = "none" THEN "NoInteraction" ELSE arg
Finish(r, res) ==
  LET st2 == IF r.v = "ok" /\ res # "" THEN [r.st EXCEPT !.handles = Put(@, res, r.val)] ELSE r.st IN
  One(st2, [r |-> r.v, arg |-> NoPolicy(r.st, r.arg), asked |-> r.asked, eff |-> r.eff,
            val |-> IF r.v = "ok" THEN Describe(r.st, r.val, res) ELSE "None"])

\* A new object: its special methods and what they return, its attributes,
\* what its iteration will yield, and the checker of its class or itself.
Subject(st, e) ==
  One([st EXCEPT
        !.objs = Put(@, e.id, [iter |-> "__iter__" \in DOMAIN e.meths,
                               item |-> "__getitem__" \in DOMAIN e.meths,
                               checker |-> e.checker, meths |-> e.meths, attrs |-> e.attrs,
                               items |-> e.items, pos |-> 0, of |-> "", kind |-> IF Get(e, "base", "") = "" THEN "subject" ELSE "based",
                               cls |-> IF e.how = "attr" /\ e.checker \notin {"DEFAULT", "NOPROXY"}
                                       THEN e.checker ELSE "TYPE"]),
        !.handles = Put(@, e.id, e.id)], Quiet)

Rock(st, e) == One([st EXCEPT !.handles = Put(@, e.id, e.v)], Quiet)

\* Attempts on a proxy by means that have no place in this specification:
\* whatever they yield, only methods were called whose names are granted, or
\* that need no permission, or that Python falls back on for a granted one,
\* and what they yield is not an unprotected object.
Unguarded == {"__lt__", "__le__", "__eq__", "__ne__", "__gt__", "__ge__", "__hash__",
              "__bool__", "__len__", "__length_hint__"}
FallsBack(n) ==
  CASE n = "__index__" -> {"__int__", "__float__", "__complex__", "__mul__", "__rmul__", "__imul__"}
    [] n = "__float__" -> {"__complex__"}
    [] n = "__add__" -> {"__iadd__"}
    [] n = "__repr__" -> {"__str__"}
    [] n \in {"__iter__", "__next__"} -> {"__contains__"}
    [] n = "__getitem__" -> {"__contains__", "__iter__"}
    [] OTHER -> {}
Probe(st, e) ==
  LET p == st.proxies[H(st, e.x)]
      \* the object may hand out itself, under the checker selected for it
      cs == {p.c, st.objs[p.val].checker}
      given(n) == \E c \in cs : Decide(st, c, "get", n, p.val).v = "ok"
      may(n) == given(n) \/ n \in Unguarded \/ \E m \in FallsBack(n) : given(m)
      fine == /\ \A k \in 1..Len(e.obs.called) : may(e.obs.called[k])
              /\ e.obs.res # "raw" IN
  {[st |-> st, obs |-> IF fine THEN [called |-> ToSet(e.obs.called), res |-> e.obs.res]
                       ELSE [called |-> {}, res |-> "none"]]}

\* Attempts to bind a proxy to another object or checker, or to get at what
\* it wraps: they leave it as it is, and yield no unprotected object.
Attack(st, e) ==
  One(st, [kept |-> "yes", res |-> IF e.obs.res = "raw" THEN "none" ELSE e.obs.res])

\* What is left out: calls whose handles are not bound, operations on values
\* of other types, and proxies of proxies except for making and removing them.
Bottom(st, v) == IF IsProxy(st, v) THEN st.proxies[v].val ELSE v
Double(st, v) == IsProxy(st, v) /\ IsProxy(st, st.proxies[v].val)
Kind(st, v) ==
  IF Double(st, v) THEN "double"
  ELSE IF ~IsObj(st, Bottom(st, v)) THEN "rock"
  ELSE st.objs[Bottom(st, v)].kind

HandleFields == {"x", "y", "z", "k", "v"}
Used(e) == {e[f] : f \in HandleFields \cap DOMAIN e}
           \cup (IF "args" \in DOMAIN e THEN {e.args[n] : n \in 1..Len(e.args)} ELSE {})
           \cup (IF "kw" \in DOMAIN e THEN {e.kw[n] : n \in DOMAIN e.kw} ELSE {})
IsString(v) == IsText(v) \/ (Len(v) > 1 /\ SubSeq(v, 1, 2) = "s:")
Making == {"factory", "mkproxy", "remove", "protect", "checkerof"}
Free == {"hash", "bool", "str", "repr"}
Within(st, e) ==
  IF e.op \in Making THEN TRUE
  ELSE IF \E h \in Used(e) : Double(st, H(st, h)) THEN FALSE
  ELSE IF e.op \in {"bin", "inplace", "cmp", "pow3"}
  THEN LET ks == {Kind(st, H(st, e[f])) : f \in {"x", "y", "z"} \cap DOMAIN e} IN
       /\ ks \subseteq {"rock", "subject"}
       /\ {Kind(st, H(st, e[f])) : f \in {"x", "y"}} # {"rock"}
       \* strings format and repeat by themselves
       /\ e.op \in {"bin", "inplace"} /\ e.name \in {"mod", "mul"} =>
            ~\E f \in {"x", "y"} : IsString(Bottom(st, H(st, e[f])))
  ELSE IF e.op \in {"probe", "attack"}
  THEN /\ IsProxy(st, H(st, e.x)) /\ Kind(st, H(st, e.x)) = "subject"
       /\ \A o \in DOMAIN st.objs : st.objs[o].checker # "NOPROXY"
  ELSE IF e.op = "isa" THEN ~Double(st, H(st, e.x))
  ELSE IF e.op \in {"next", "iter"} THEN Kind(st, H(st, e.x)) \in {"subject", "seqiter"}
  ELSE IF e.op \in Free THEN Kind(st, H(st, e.x)) \in {"subject", "seqiter", "class"}
  ELSE IF e.op = "contains"      \* not by iterating
  THEN /\ Kind(st, H(st, e.x)) = "subject"
       /\ LET ms == DOMAIN st.objs[Bottom(st, H(st, e.x))].meths IN
          "__contains__" \in ms \/ ms \cap {"__iter__", "__getitem__"} = {}
  ELSE Kind(st, H(st, e.x)) = "subject"

Operations(st, e) ==
  CASE e.op = "bin" -> Finish(Bin(st, e.name, H(st, e.x), H(st, e.y), e.res), e.res)
    [] e.op = "inplace" -> Finish(InPlace(st, e.name, H(st, e.x), H(st, e.y), e.res), e.res)
    [] e.op = "pow3" -> Finish(Pow3(st, H(st, e.x), H(st, e.y), H(st, e.z), e.res), e.res)
    [] e.op = "cmp" -> Finish(Cmp(st, e.name, H(st, e.x), H(st, e.y), e.res), e.res)
    [] e.op = "un" -> Finish(Unary(st, "__" \o e.name \o "__", H(st, e.x), e.res), e.res)
    [] e.op = "getitem" -> Finish(GetItem(st, H(st, e.x), H(st, e.k), e.res), e.res)
    [] e.op = "setitem" -> Finish(SetItem(st, H(st, e.x), H(st, e.k), H(st, e.v)), "")
    [] e.op = "delitem" -> Finish(DelItem(st, H(st, e.x), H(st, e.k)), "")
    [] e.op = "contains" -> Finish(Contains(st, H(st, e.x), H(st, e.v)), "")
    [] e.op = "len" -> Finish(Length(st, H(st, e.x)), "")
    [] e.op = "hint" -> Finish(LengthHint(st, H(st, e.x)), "")
    [] e.op = "call" -> Finish(Call(st, H(st, e.x), Hs(st, e.args) \o Keywords(st, e), e.res), e.res)
    [] e.op = "iter" -> Finish(Iter(st, H(st, e.x), e.res), e.res)
    [] e.op = "next" -> Finish(Next(st, H(st, e.x), e.res), e.res)
    [] e.op = "get" -> Finish(GetAttr(st, H(st, e.x), e.name, e.res), e.res)
    [] e.op = "set" -> Finish(SetAttr(st, H(st, e.x), e.name, H(st, e.v)), "")
    [] e.op = "del" -> Finish(DelAttr(st, H(st, e.x), e.name), "")
    [] e.op = "hash" -> Finish(Hash(st, H(st, e.x)), "")
    [] e.op = "bool" -> Finish(Bool(st, H(st, e.x)), "")
    [] e.op = "str" -> Finish(Text(st, H(st, e.x), "__str__"), "")
    [] e.op = "repr" -> Finish(Text(st, H(st, e.x), "__repr__"), "")
    [] e.op = "factory" -> Finish(Factory(st, H(st, e.x), e.c, e.res), e.res)
    [] e.op = "mkproxy" -> Finish(MakeProxy(st, H(st, e.x), e.c, e.res), e.res)
    [] e.op = "remove" -> Finish(Ok(st, Bare(st, H(st, e.x))), e.res)
    [] e.op = "protect" -> Finish(Protect(Ok(st, H(st, e.x)), e.res), e.res)
    [] e.op = "checkerof" ->
         Finish(IF IsProxy(st, H(st, e.x)) THEN Ok(st, st.proxies[H(st, e.x)].c)
                ELSE Err(st, "TypeError"), "")
    \* the proxy's own slots are out of reach from wherever they are read
    [] e.op = "inside" -> Finish(GetAttr(st, H(st, e.x), e.slot, ""), "")
    [] e.op = "isa" -> Finish(Ok(st, IF Bare(st, H(st, e.x)) = e.o THEN "True" ELSE "False"), "")
    [] e.op = "probe" -> Probe(st, e)
    [] e.op = "attack" -> Attack(st, e)

PrxOutcomes(st, e) ==
  CASE e.op = "subject" -> Subject(st, e)
    [] e.op = "rock" -> Rock(st, e)
    \* an object that says it is a proxy is as any other
    [] e.op = "liar" ->
         One(st, IF e.how = "remove" THEN [r |-> "raw", ck |-> ""]
                 ELSE [r |-> "proxied", ck |-> IF e.how \in {"factory", "proxy"} /\ e.c # "" THEN e.c
                                              ELSE IF e.own # "" THEN e.own ELSE "DEFAULT"])
    [] "x" \in DOMAIN e ->
         IF Used(e) \subseteq DOMAIN st.handles /\ Within(st, e) THEN Operations(st, e)
         ELSE One(st, [r |-> "left out"])
    [] OTHER -> ChkOutcomes(st, e)

PrxSetFields == {"asked", "cons", "called"}
=============================================================================
