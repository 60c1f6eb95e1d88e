------------------------------ MODULE Lattice ------------------------------
(* Shared vocabulary: lattice integers with sentinels, exact division, small *)
(* sequence helpers. All specifications compute on integers only.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NAN  == 2000000001      \* a float that is not a number
INF  == 2000000002      \* +infinity
NINF == -2000000002     \* -infinity
OFF  == 2000000009      \* observed value is not a point of the lattice

Finite(x)   == x # NAN /\ x # INF /\ x # NINF
AllFinite(q) == \A i \in DOMAIN q : Finite(q[i])
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
MinOf(x, y) == IF x < y THEN x ELSE y
MaxOf(x, y) == IF x > y THEN x ELSE y
Clamp(x, lo, hi) == MinOf(MaxOf(x, lo), hi)
(* Division that must come out exact: anything else is a modelling error.    *)
ExDiv(x, y) == IF (IF y > 0 THEN x % y ELSE (-x) % (-y)) = 0
               THEN (IF y > 0 THEN x \div y ELSE (-x) \div (-y))
               ELSE Assert(FALSE, <<"inexact", x, y>>)
Exact(x, y) == x % y = 0
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
Sum(q) == SumTo(q, Len(q))
Dot(p, q) == Sum([i \in 1..Len(p) |-> p[i] * q[i]])
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Rep(n, x) == [i \in 1..n |-> x]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
B(p) == IF p THEN 1 ELSE 0

(* What every operation of every specification returns: the next abstract    *)
(* state and the observation (outcome tag, integer values).                  *)
Ret(s, r, v) == [st |-> s, r |-> r, v |-> v]
NoW == [r |-> "none", v |-> <<>>]         \* no witness: functional operations
=============================================================================
