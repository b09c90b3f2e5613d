------------------------------- MODULE Lib --------------------------------
(* Small helpers shared by every specification of this directory.           *)
EXTENDS Integers, Sequences, FiniteSets

Flag(c, name) == IF c THEN {name} ELSE {}
Range(q) == {q[i] : i \in DOMAIN q}
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* q without the elements equal to x
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
\* q without its i-th element
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* q without the first element equal to x
DropFirst(q, x) ==
  IF x \notin Range(q) THEN q
  ELSE DropAt(q, CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1..(i-1) : q[j] # x)
IndexOf(q, x) == IF x \in Range(q)
                 THEN CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1..(i-1) : q[j] # x
                 ELSE 0
Take(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
NoDup(q) == Cardinality(Range(q)) = Len(q)
Last(q) == q[Len(q)]
\* same elements with the same multiplicities
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) : Count(p, x) = Count(q, x)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
GetOr(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
============================================================================
