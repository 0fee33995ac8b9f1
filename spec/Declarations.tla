---------------------------- MODULE Declarations ----------------------------
(***************************************************************************)
(* Declarations of protection for classes.                                 *)
(*                                                                         *)
(*   classes  known classes                                                *)
(*   reg      class -> cell: the checker registered for it, if any         *)
(*   cells    cell -> [get, set], its two tables name -> permission        *)
(*   grant    what the current policy grants                               *)
(*                                                                         *)
(* A checker that was registered for two classes is one cell.              *)
(***************************************************************************)
EXTENDS Lib

PUBLIC == "PUBLIC"
NONE == "NONE"
PublicId == "zope.Public"
Open == {"__class__", "__name__", "__parent__", "__repr__", "__eq__", "__hash__", "__bool__",
         "__providedBy__", "__conform__"}

DeclInit(impl) == [impl |-> impl, classes |-> {}, reg |-> Empty, cells |-> Empty, n |-> 0, grant |-> {}]
NoTables == [get |-> Empty, set |-> Empty]
Meaning(p) == IF p = PublicId THEN PUBLIC ELSE p

\* The cell of a class, made when missing.
WithCell(st, c) ==
  IF c \in DOMAIN st.reg THEN st
  ELSE LET id == "auto" \o ToString(st.n) IN
       [st EXCEPT !.n = @ + 1, !.reg = Put(@, c, id), !.cells = Put(@, id, NoTables)]

Protect(st, c, kind, name, perm) ==
  LET s == WithCell(st, c) IN
  [s EXCEPT !.cells[s.reg[c]] = IF kind = "get" THEN [@ EXCEPT !.get = Put(@, name, Meaning(perm))]
                                ELSE [@ EXCEPT !.set = Put(@, name, Meaning(perm))]]

Over(f, g) == [n \in DOMAIN f \cup DOMAIN g |-> IF n \in DOMAIN g THEN g[n] ELSE f[n]]
Like(st, c, other) ==
  IF other \notin DOMAIN st.reg THEN st
  ELSE LET s == WithCell(st, c)
           from == s.cells[s.reg[other]] IN
       [s EXCEPT !.cells[s.reg[c]] = [get |-> Over(@.get, from.get), set |-> Over(@.set, from.set)]]

Define(st, e) ==
  IF e.c \in DOMAIN st.reg THEN Fails(st, "DuplicationError")
  ELSE Fine([st EXCEPT !.reg = Put(@, e.c, e.cell)])
Undefine(st, e) ==
  IF e.c \in DOMAIN st.reg THEN Fine([st EXCEPT !.reg = Drop(@, e.c)]) ELSE Fails(st, "KeyError")

Tables(st, c) == IF c \in DOMAIN st.reg THEN st.cells[st.reg[c]] ELSE NoTables
\* What an instance of class c allows.
Decision(st, c, kind, name) ==
  LET t == IF kind = "get" THEN Tables(st, c).get ELSE Tables(st, c).set
      p == Get(t, name, NONE) IN
  CASE p = PUBLIC -> [r |-> "ok", arg |-> ""]
    [] p # NONE /\ p \in st.grant -> [r |-> "ok", arg |-> ""]
    [] p # NONE -> [r |-> "unauth", arg |-> p]
    [] OTHER -> IF kind = "get" /\ name \in Open THEN [r |-> "ok", arg |-> ""]
                ELSE [r |-> "forbid", arg |-> name]

Dump(st, c) ==
  IF c \notin DOMAIN st.reg THEN [r |-> "none", get |-> {}, set |-> {}]
  ELSE LET t == Tables(st, c) IN
       [r |-> "tables", get |-> {n \o "=" \o t.get[n] : n \in DOMAIN t.get},
        set |-> {n \o "=" \o t.set[n] : n \in DOMAIN t.set}]

DeclOutcomes(st, e) ==
  CASE e.op = "class" -> Fine([st EXCEPT !.classes = @ \cup {e.id}])
    [] e.op = "cell" -> Fine([st EXCEPT !.cells = Put(@, e.id, [get |-> e.get, set |-> e.set])])
    [] e.op = "define" -> Define(st, e)
    [] e.op = "undefine" -> Undefine(st, e)
    [] e.op = "protect" -> Fine(Protect(st, e.c, e.kind, e.name, e.perm))
    [] e.op = "like" -> Fine(Like(st, e.c, e.other))
    [] e.op = "grant" -> Fine([st EXCEPT !.grant = ToSet(e.perms)])
    [] e.op = "probe" -> One(st, Decision(st, e.c, e.kind, e.name))
    [] e.op = "dump" -> One(st, Dump(st, e.c))

DeclSetFields == {"get", "set"}
=============================================================================
