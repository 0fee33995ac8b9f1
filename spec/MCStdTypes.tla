----------------------------- MODULE MCStdTypes -----------------------------
(* One value of every kind, everything that can be done with it once; and  *)
(* the rule that nothing which changes a value is open.                    *)
EXTENDS StdTypes
CONSTANTS Part
VARIABLES st, last

Ways == {"len", "iter", "next", "contains", "getitem", "slice", "setitem", "delitem", "setslice", "delslice",
         "add", "radd", "iadd", "mul", "rmul", "imul", "sub", "rsub", "isub", "and", "rand", "iand",
         "or", "ror", "ior", "xor", "rxor", "ixor", "mod", "rmod", "imod", "floordiv", "rfloordiv", "ifloordiv",
         "truediv", "rtruediv", "itruediv", "divmod", "rdivmod", "pow", "rpow", "ipow",
         "neg", "pos", "abs", "invert", "int", "float", "index", "call", "str",
         "bool", "hash", "repr", "eq", "ne", "lt", "le", "gt", "ge", "req", "rlt"}
\* What changes a value of a kind in place.
Changing(k) ==
  CASE k = "list" -> {"append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear"}
    [] k = "dict" -> {"clear", "pop", "popitem", "setdefault", "update"}
    [] k = "set" -> {"add", "clear", "discard", "pop", "remove", "update", "difference_update",
                     "intersection_update", "symmetric_difference_update"}
    [] k = "generator" -> {"send", "throw", "close"}
    [] k \in {"function", "method"} -> {"__code__", "__globals__", "__closure__", "__defaults__", "__func__", "__self__"}
    [] k = "builtin_method" -> {"__self__"}
    [] k \in Classes -> {"__subclasses__", "__call__", "mro"}
    [] OTHER -> {}
ChangingAny == {"__setitem__", "__delitem__", "__iadd__", "__imul__", "__isub__", "__iand__", "__ior__", "__ixor__",
                "__imod__", "__ifloordiv__", "__itruediv__", "__ipow__",
                "__setattr__", "__delattr__", "__init__", "__dict__", "__setstate__", "__reduce__", "__reduce_ex__",
                "__subclasshook__", "__init_subclass__"}
Names == UNION {GrantsOf(k) : k \in Known} \cup Available \cup UNION {Changing(k) : k \in Known} \cup ChangingAny
         \cup {"nosuch", ""}

TheSetup == <<>>
TheCalls(s) ==
  IF DOMAIN s.vals = {} THEN {[op |-> "new", id |-> "a", kind |-> k, v |-> 0] : k \in Kinds \ {"other"}}
  ELSE {[op |-> "get", id |-> "a", name |-> n, res |-> ""] : n \in Names}
       \cup {[op |-> o, id |-> "a", name |-> n, res |-> ""] : o \in {"set", "del"}, n \in {"__class__", "nosuch", "__name__"}}
       \cup {[op |-> "use", id |-> "a", way |-> w, arg |-> 0, res |-> ""] : w \in Ways}
       \cup {[op |-> "mutate", id |-> "a", v |-> 1]}

TheKey(s) == s.vals
INSTANCE MCBase WITH InitOf <- StdInit, Outcomes <- StdOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey

ev == last'.e
ob == last'.obs
K == st.vals[ev.id]
C09 ==
  /\ ev.op = "new" => (ob.form = "raw") = IsRock(ev.kind)
  /\ ev.op = "get" /\ ~IsRock(K) /\ ev.name \in Changing(K) \cup ChangingAny => ob.r = "forbid"
  /\ ev.op \in {"set", "del"} /\ ~IsRock(K) => ob.r = "forbid"
  /\ ev.op = "use" /\ ~IsRock(K) /\ Needs(ev.way) \in ChangingAny => ob.r = "forbid"
  /\ ev.op \in {"get", "use"} /\ ob.r = "ok" /\ ob.same # "generic" => (ob.form = "raw") = IsRock(ob.val)
  /\ "sync" \in DOMAIN ob => ob.sync = "yes"

Props == [][C09]_mcvars
=============================================================================
