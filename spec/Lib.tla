-------------------------------- MODULE Lib --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC

ToSet(s) == {s[k] : k \in 1..Len(s)}
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Empty == [x \in {} |-> x]
One(st, obs) == {[st |-> st, obs |-> obs]}

Fine(st) == One(st, [r |-> "done"])
Fails(st, kind) == One(st, [r |-> "error", arg |-> kind])
=============================================================================
