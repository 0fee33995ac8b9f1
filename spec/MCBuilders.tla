----------------------------- MODULE MCBuilders -----------------------------
(* All checkers built from up to three small specifications over a diamond  *)
(* of interfaces.                                                           *)
EXTENDS Builders
CONSTANTS Part
VARIABLES st, last

TheSetup == <<
  [op |-> "iface", id |-> "I", bases |-> <<>>, names |-> <<"x">>],
  [op |-> "iface", id |-> "J", bases |-> <<"I">>, names |-> <<"y">>],
  [op |-> "iface", id |-> "K", bases |-> <<"I">>, names |-> <<>>],
  [op |-> "iface", id |-> "L", bases |-> <<"J", "K">>, names |-> <<"x">>],
  [op |-> "grant", perms |-> <<"q">>] >>
Ps == {"p", "q", "PUBLIC", "NONE"}
Small == {<<>>, <<"x">>, <<"x", "y">>, <<"y", "x", "y">>}
Kws == {Empty} \cup [{"x"} -> Ps] \cup [{"x", "z"} -> {"p", "PUBLIC"}]
Is == {"I", "J", "K", "L"}
Specs == {[kind |-> "names", names |-> n, perm |-> p] : n \in {<<"x">>, <<"y", "x">>}, p \in {"p", "PUBLIC"}}
         \cup {[kind |-> "iface", iface |-> i, perm |-> p] : i \in {"I", "L"}, p \in {"p", "q"}}
         \cup {[kind |-> "dict", map |-> m] : m \in {Empty} \cup [{"x"} -> {"p", "PUBLIC"}]}
Lists(n) == UNION {[1..k -> Specs] : k \in 0..n}
Makers ==
  IF Part = "one" THEN
    {[op |-> "names", id |-> "c", names |-> n, perm |-> p, kw |-> k] : n \in Small, p \in Ps \cup {"DEFAULT"}, k \in Kws}
    \cup {[op |-> "ifc", id |-> "c", iface |-> i, perm |-> p, kw |-> k] : i \in Is, p \in Ps \cup {"DEFAULT"}, k \in Kws}
  ELSE {[op |-> "multi", id |-> "c", specs |-> s] : s \in Lists(IF Part = "multi" THEN 2 ELSE 3)}
Empty0(s) == s.built = Empty
TheCalls(s) ==
  (IF Empty0(s) THEN Makers ELSE {})
  \cup {[op |-> "dump", id |-> "c"], [op |-> "spoil", id |-> "c"]}
  \cup {[op |-> "probe", id |-> "c", kind |-> k, name |-> n] : k \in {"get", "set"}, n \in {"x", "y", "z", "w", "__class__"}}

TheKey(s) == s
INSTANCE MCBase WITH InitOf <- BuildInit, Outcomes <- BuildOutcomes, Calls <- TheCalls, Setup <- TheSetup,
                     Impls <- {"c"}, Key <- TheKey

ev == last'.e
ob == last'.obs
Ns == {"x", "y", "z", "w"}
\* Said independently of Build: a sequential reading, in any order.
RECURSIVE Fold(_, _)
Fold(acc, cls) ==      \* acc: [ok, t]
  IF cls = <<>> \/ ~acc.ok THEN acc
  ELSE LET c == Head(cls) IN
       Fold(IF c[1] \in DOMAIN acc.t /\ acc.t[c[1]] # c[2] THEN [acc EXCEPT !.ok = FALSE]
            ELSE [acc EXCEPT !.t = Put(@, c[1], c[2])], Tail(cls))
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : p[a] = p[b] => a = b}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Read(ss) == Fold([ok |-> TRUE, t |-> Empty], Concat([k \in 1..Len(ss) |-> AsSeq(Claims(st, ss[k]))]))
C11 ==
  /\ ev.op \in {"names", "ifc", "multi"} =>
       LET ss == SpecsOf(ev) IN
       /\ \A p \in Perms(Len(ss)) :
            LET r == Read([k \in 1..Len(ss) |-> ss[p[k]]]) IN
            /\ r.ok = (ob.r = "done")
            /\ r.ok => r.t = st'.built["c"]
       /\ ob.r = "dup" => st'.built = Empty
       /\ ob.r = "done" => \A n \in Ns : Decision(st', "c", "set", n).r = "forbid"
  /\ ev.op \in {"probe", "dump", "spoil"} => st' = st
  /\ ev.op = "probe" /\ ob.r = "ok" => ev.kind = "get"
  /\ ev.op = "probe" /\ ev.name \in {"w"} => ob.r \in {"forbid", "none"}

Props == [][C11]_mcvars
=============================================================================
