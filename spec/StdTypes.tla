------------------------------ MODULE StdTypes ------------------------------
(***************************************************************************)
(* Values of standard types as untrusted code sees them.                   *)
(*                                                                         *)
(*   vals   handle -> kind of the value; "raw" kinds are handed out bare,  *)
(*          all others through a security proxy                            *)
(*                                                                         *)
(* Every handle stands for a value behind a proxy and for a twin of it     *)
(* that is used bare; whatever is done through the proxy is also done to   *)
(* the twin, and what comes of it is compared.                             *)
(***************************************************************************)
EXTENDS Lib

Available == {"__lt__", "__le__", "__eq__", "__gt__", "__ge__", "__ne__",
              "__hash__", "__bool__", "__class__", "__providedBy__",
              "__implements__", "__repr__", "__conform__", "__name__",
              "__parent__"}

Rocks == {"int", "float", "complex", "bool", "none", "str", "bytes", "message",
          "timedelta", "datetime", "date", "time", "tzinfo", "utc",
          "dict_keys", "dict_values", "dict_items", "object", "provides", "implements"}

Iterators == {"list_iter", "tuple_iter", "dict_iter", "set_iter", "seq_iter", "generator", "odict_iter",
              "odict_keys", "odict_values", "odict_items", "groupby", "grouper", "cycle", "product", "repeat", "zip_longest", "accumulate",
              "tee", "takewhile", "dropwhile", "compress", "permutations", "combinations", "combinations_wr",
              "islice", "count", "map_like",
              "btree_items", "btree_iter"}
Functions == {"function", "method", "builtin", "builtin_method", "wrapper"}
Classes == {"class", "abc_class"}
Sets == {"set", "frozenset"}
Declarations == {"class_provides", "declaration"}

SpecNames == {"__iter__", "__contains__", "__iro__", "__sro__", "__bases__", "extends", "isOrExtends",
              "get", "implementedBy", "providedBy", "subscribe", "weakref", "_implied"}
Tagged == {"getTaggedValue", "queryTaggedValue", "getTaggedValueTags", "setTaggedValue",
           "getDirectTaggedValue", "queryDirectTaggedValue", "getDirectTaggedValueTags"}

\* The names that are granted on a value of each kind, besides those that
\* are always available.
GrantsOf(k) ==
  CASE k = "dict" -> {"__getitem__", "__len__", "__iter__", "__contains__", "__str__", "get", "has_key", "copy",
                      "keys", "values", "items", "iterkeys", "itervalues", "iteritems"}
    [] k = "list" -> {"__getitem__", "__len__", "__iter__", "__contains__", "__str__", "__add__", "__radd__",
                      "index", "count"}
    [] k = "tuple" -> {"__getitem__", "__len__", "__iter__", "__contains__", "__str__", "__add__", "__radd__"}
    [] k \in Sets -> {"__len__", "__contains__", "__iter__", "__str__", "copy", "difference", "intersection",
                      "issubset", "issuperset", "symmetric_difference", "union",
                      "__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "__rxor__",
                      "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"}
    [] k = "decimal" -> {"__bool__", "__cmp__", "__eq__", "__ne__", "__hash__", "__str__", "__neg__", "__pos__",
                         "__abs__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
                         "__truediv__", "__rtruediv__", "__floordiv__", "__rfloordiv__", "__mod__", "__rmod__",
                         "__divmod__", "__rdivmod__", "__pow__", "__rpow__", "__int__", "__float__",
                         "adjusted", "as_tuple", "compare", "max", "min", "normalize", "quantize",
                         "remainder_near", "same_quantum", "sqrt", "to_eng_string", "to_integral"}
    [] k = "weakref" -> {"__call__"}
    [] k \in Functions -> {"__call__", "__str__", "__name__"}
    [] k \in Classes -> {"__str__", "__name__", "__module__", "__bases__", "__mro__", "__implemented__"}
    [] k = "module" -> {"__name__"}
    [] k \in Iterators -> {"__next__", "next", "__iter__", "__len__", "__length_hint__"}
    [] k = "interface" -> SpecNames \cup Tagged \cup
                          {"__str__", "__getitem__", "__len__", "__name__", "__doc__", "__module__", "direct", "names",
                           "namesAndDescriptions", "validateInvariants"}
    [] k = "ifmethod" -> Tagged \cup {"__doc__", "__name__", "interface", "getSignatureInfo", "getSignatureString"}
    [] k \in Declarations -> SpecNames \cup {"__add__", "__sub__", "__nonzero__", "__call__", "flattened", "unsubscribe"}
    [] OTHER -> {}

Known == {"dict", "list", "tuple", "decimal", "weakref", "module", "interface", "ifmethod"}
         \cup Sets \cup Functions \cup Classes \cup Iterators \cup Declarations
Kinds == Known \cup Rocks \cup {"other"}
IsRock(k) == k \in Rocks
Allowed(k, n) == n \in GrantsOf(k) \cup Available

\* The name each way of using a value stands for; "" needs none.
Needs(w) ==
  CASE w \in {"bool", "hash", "repr", "eq", "ne", "lt", "le", "gt", "ge", "req", "rlt"} -> ""
    [] w \in {"slice"} -> "__getitem__"
    [] w \in {"setslice"} -> "__setitem__"
    [] w \in {"delslice"} -> "__delitem__"
    [] OTHER -> "__" \o w \o "__"

StdInit(impl) == [impl |-> impl, vals |-> Empty]

Form(k) == IF IsRock(k) THEN "raw" ELSE "proxied"
Bind(st, res, k) == IF res = "" THEN st ELSE [st EXCEPT !.vals = Put(@, res, k)]

\* A value of this kind, made by trusted code, is handed out.
New(st, e) == One(Bind(st, e.id, e.kind), [r |-> "done", form |-> Form(e.kind)])

\* Something is done that the twin allows, too: what comes of it is the same.
Failure(st) == One(st, [r |-> "error", val |-> "", form |-> "", same |-> "yes", sync |-> "yes"])
Results(st, res) ==
  {[st |-> Bind(st, res, k),
    obs |-> [r |-> "ok", val |-> k, form |-> Form(k), same |-> "yes", sync |-> "yes"]] : k \in Kinds}
  \cup Failure(st)
Refused(st) == One(st, [r |-> "forbid", val |-> "", form |-> "", same |-> "", sync |-> "yes"])

Read(st, e) ==
  LET k == st.vals[e.id] IN
  IF Allowed(k, e.name) THEN Results(st, e.res)
  ELSE Refused(st) \cup IF e.name = "__iter__" THEN Failure(st) ELSE {}

\* Nothing of a protected value can be replaced or deleted by name.
Write(st, e) == Refused(st)

Use(st, e) ==
  LET k == st.vals[e.id] n == Needs(e.way) IN
  IF e.way = "str" /\ ~Allowed(k, "__str__")
  THEN One(Bind(st, e.res, "str"), [r |-> "ok", val |-> "str", form |-> "raw", same |-> "generic", sync |-> "yes"])
  ELSE IF n = "" \/ Allowed(k, n) THEN Results(st, e.res)
  \* what cannot be iterated may also say so
  ELSE Refused(st) \cup IF n = "__iter__" THEN Failure(st) ELSE {}

\* All names the value has, and more, are tried.
Sweep(st, e) ==
  LET k == st.vals[e.id] IN
  One(st, [r |-> "ok", granted |-> {n \in ToSet(e.names) : Allowed(k, n)}, writable |-> {}, deletable |-> {},
           sync |-> "yes"])

StdOutcomes(st, e) ==
  IF "id" \in DOMAIN e /\ e.op # "new" /\ e.id \notin DOMAIN st.vals THEN One(st, [r |-> "skip"])
  \* rocks are plain values, nothing to see
  ELSE IF e.op \notin {"new", "sweep", "mutate"} /\ IsRock(st.vals[e.id]) THEN One(st, [r |-> "rock"])
  ELSE
  CASE e.op = "new" -> New(st, e)
    [] e.op = "get" -> Read(st, e)
    [] e.op \in {"set", "del"} -> Write(st, e)
    [] e.op = "use" -> Use(st, e)
    [] e.op = "sweep" -> Sweep(st, e)
    \* trusted code changes the value
    [] e.op = "mutate" -> One(st, [r |-> "done"])

StdSetFields == {"granted", "writable", "deletable"}
=============================================================================
