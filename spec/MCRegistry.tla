----------------------------- MODULE MCRegistry -----------------------------
(* All registrations for a base class, its subclass, an exception class, a  *)
(* module and a built-in type.                                              *)
EXTENDS Registry
CONSTANTS Part
VARIABLES st, last

TheSetup == <<
  [op |-> "checker", id |-> "c1"], [op |-> "checker", id |-> "c2"],
  [op |-> "type", id |-> "T1", base |-> "", exc |-> FALSE],
  [op |-> "type", id |-> "T2", base |-> "T1", exc |-> FALSE],
  [op |-> "type", id |-> "X", base |-> "", exc |-> TRUE],
  [op |-> "fn", id |-> "f1", to |-> "c1"], [op |-> "fn", id |-> "f2", to |-> "f1"],
  [op |-> "fn", id |-> "f0", to |-> "NONE"], [op |-> "fn", id |-> "fn", to |-> "NOPROXY"],
  [op |-> "fn", id |-> "fb", to |-> "boom"],
  [op |-> "fn", id |-> "fu", to |-> "c1", act |-> [op |-> "undefine", what |-> "T1"]],
  [op |-> "fn", id |-> "fd", to |-> "fu", act |-> [op |-> "define", what |-> "m", entry |-> "c2"]],
  [op |-> "object", id |-> "a1", type |-> "T1", own |-> ""],
  [op |-> "object", id |-> "a2", type |-> "T2", own |-> ""],
  [op |-> "object", id |-> "a3", type |-> "T2", own |-> "c2"],
  [op |-> "object", id |-> "a4", type |-> "T1", own |-> "NONE"],
  [op |-> "object", id |-> "a5", type |-> "T1", own |-> "boom"],
  [op |-> "object", id |-> "x", type |-> "X", own |-> ""],
  [op |-> "object", id |-> "m", type |-> "module", own |-> ""],
  [op |-> "object", id |-> "l", type |-> "list", own |-> ""],
  [op |-> "object", id |-> "i", type |-> "int", own |-> ""] >>

Entries == {"c1", "NOPROXY"} \cup IF Part = "types" THEN {"f2", "f0", "fn", "fb"} ELSE {"fb", "fu", "fd"}
Whats == IF Part = "types" THEN {"T1", "T2", "X"} ELSE {"T1", "m", "list"}
TheCalls(s) ==
  {[op |-> "define", what |-> w, entry |-> n] : w \in Whats, n \in Entries}
  \cup {[op |-> "define", what |-> w, entry |-> "c2"] : w \in {"a1", "nothing"}}
  \cup {[op |-> "undefine", what |-> w] : w \in Whats}
  \cup (IF Part = "types" THEN {} ELSE
         {[op |-> "basic", what |-> "T1", how |-> h, entry |-> n] : h \in {"", "setdefault"}, n \in {"NOPROXY", "c2"}}
         \cup {[op |-> "unbasic", what |-> "T1", how |-> h] : h \in {"", "default"}})
  \cup {[op |-> "lookup", what |-> w] : w \in Whats}
  \cup {[op |-> o, o |-> x] : o \in {"select", "factory", "result"}, x \in DOMAIN s.objs}
  \cup {[op |-> "cleanup"], [op |-> "builtins"]}

TheKey(s) == <<s.impl, s.reg, s.basic>>
INSTANCE MCBase WITH InitOf <- RegInit, Outcomes <- RegOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c", "py"}, Key <- TheKey

ev == last'.e
ob == last'.obs
\* Failures change nothing; the registry of other types is never affected;
\* selection depends on the exact type only; cleanup gives the built-ins.
C08 ==
  /\ ev.op \in {"define", "undefine"} /\ ob.r = "error" => st' = st
  /\ ev.op = "define" => (ob.r = "done" <=> Definable(st, ev.what) /\ ev.what \notin DOMAIN st.reg)
  /\ ev.op \in {"define", "undefine", "basic", "unbasic"} =>
       \A t \in DOMAIN st.reg \cup DOMAIN st'.reg : t # ev.what => Get(st.reg, t, "") = Get(st'.reg, t, "")
  /\ ev.op = "cleanup" => \A t \in DOMAIN st'.reg : t \in DOMAIN BuiltIn \/ t \in DOMAIN st.basic
  /\ ev.op \in {"factory", "result"} /\ st.objs[ev.o].own \in st.checkers => ob.val = st.objs[ev.o].own
  /\ ev.op \in {"select", "factory", "result"} /\ st.objs[ev.o].own = "" /\ st.objs[ev.o].type \notin DOMAIN st.reg =>
       ob.r = "ok" /\ ob.val \in {"DEFAULT", "none"}
       /\ (ob.val = "none" => st.types[st.objs[ev.o].type].exc)
  /\ ev.op \in {"lookup", "builtins"} => st' = st
  /\ ev.op \in {"select", "factory", "result"} /\ st' # st => ob.calls # <<>>

Props == [][C08]_mcvars
=============================================================================
