---------------------------------- MODULE Mats ----------------------------------
(* Whole-number matrices, row by row, and the relations observed factors and solutions *)
(* in ten-thousandths have to satisfy; no state of its own.                             *)
EXTENDS Fixed
K == ONE
Mat(m, n, f(_, _)) == TLCEval([k \in 1..(m * n) |-> f(((k - 1) \div n) + 1, ((k - 1) % n) + 1)])
At(a, n, i, j) == a[(i - 1) * n + j]
Tp(a, m, n) == LET f(i, j) == At(a, n, j, i) IN Mat(n, m, f)
MulG(a, b, m, k, n) == LET f(i, j) == Sum([l \in 1..k |-> At(a, k, i, l) * At(b, n, l, j)]) IN Mat(m, n, f)
Eye(n) == LET f(i, j) == B(i = j) IN Mat(n, n, f)
Row(a, n, i) == SubSeq(a, (i - 1) * n + 1, i * n)
Size(q) == Sum([k \in DOMAIN q |-> Abs(q[k])])
Near(x, y, t) == Abs(x - y) <= t
(* determinant by expansion along the first row *)
RECURSIVE Det(_, _)
Det(a, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN a[1]
  ELSE Sum([c \in 1..n |-> IF a[c] = 0 THEN 0
     ELSE (IF c % 2 = 1 THEN 1 ELSE -1) * a[c] * Det([k \in 1..((n - 1) * (n - 1)) |-> LET i == ((k - 1) \div (n - 1)) + 2 j == ((k - 1) % (n - 1)) + 1 IN At(a, n, i, IF j < c THEN j ELSE j + 1)], n - 1)])
Lead(a, n, k) == Det([q \in 1..(k * k) |-> At(a, n, ((q - 1) \div k) + 1, ((q - 1) % k) + 1)], k)
Trace(a, n) == Sum([i \in 1..n |-> At(a, n, i, i)])
Gram(a, m, n) == MulG(Tp(a, m, n), a, n, m, n)
Sym(a, n) == Tp(a, n, n) = a
(* rank: the largest square piece with a determinant *)
RECURSIVE Subsets(_, _)
Subsets(n, k) == {s \in SUBSET (1..n) : Cardinality(s) = k}
Sorted(s) == LET RECURSIVE g(_) g(t) == IF t = {} THEN <<>> ELSE <<SetMin(t)>> \o g(t \ {SetMin(t)}) IN g(s)
Piece(a, n, rs, cs) == LET p == Sorted(rs) q == Sorted(cs) f(i, j) == At(a, n, p[i], q[j]) IN Mat(Len(p), Len(q), f)
Rank(a, m, n) == SetMax({0} \cup {k \in 1..MinOf(m, n) : \E rs \in Subsets(m, k), cs \in Subsets(n, k) : Det(Piece(a, n, rs, cs), k) # 0})
FullRank(a, m, n) == IF m = n THEN Det(a, n) # 0 ELSE IF m > n THEN Det(Gram(a, m, n), n) # 0 ELSE Det(MulG(a, Tp(a, m, n), m, n, m), m) # 0
ZeroCol(a, m, n) == \E j \in 1..n : \A i \in 1..m : At(a, n, i, j) = 0
(* ---- relations between observed factors and the matrix ------------------------------- *)
Sane(v) == \A k \in DOMAIN v : Finite(v[k]) /\ v[k] # OFF
Huge(v) == \E k \in DOMAIN v : Abs(v[k]) > 20000000
(* a x = b, x in 1/K: every row within what rounding x can do *)
Solves(a, n, x, b) == Huge(x) \/ \A i \in 1..n : Near(Dot(Row(a, n, i), x), K * b[i], Size(Row(a, n, i)) + 1)
Inverts(a, n, x) == \A j \in 1..n : Solves(a, n, [i \in 1..n |-> At(x, n, i, j)], [i \in 1..n |-> B(i = j)])
(* column j of a fixed-point matrix *)
Col(a, m, n, j) == [i \in 1..m |-> At(a, n, i, j)]
FDot(x, y) == Sum([i \in DOMAIN x |-> FMul(x[i], y[i])])
Orthonormal(u, m, n) == \A j \in 1..n, k \in 1..n : Near(FDot(Col(u, m, n, j), Col(u, m, n, k)), IF j = k THEN K ELSE 0, 2 * m + 2)
IsPerm(p, n) == {p[i] : i \in 1..n} = 1..n
LuHolds(a, n, l, u, p) ==
  /\ IsPerm(p, n)
  /\ \A i \in 1..n, j \in 1..n : (j > i => At(l, n, i, j) = 0) /\ (j < i => At(u, n, i, j) = 0 /\ Abs(At(l, n, i, j)) <= K)
  /\ \A i \in 1..n : (At(l, n, i, i) = K /\ At(u, n, i, i) # 0)
  /\ \A i \in 1..n, j \in 1..n : Near(FDot(Col(u, n, n, j), Row(l, n, i)), K * At(a, n, p[i], j), 2 * n + Size(Col(u, n, n, j)) \div K)
CholHolds(a, n, l) ==
  /\ \A i \in 1..n, j \in 1..n : j > i => At(l, n, i, j) = 0
  /\ \A i \in 1..n : At(l, n, i, i) > 0
  /\ \A i \in 1..n : \A j \in 1..i : Near(FDot(Row(l, n, i), Row(l, n, j)), K * At(a, n, i, j), 2 * n + (Size(Row(l, n, i)) + Size(Row(l, n, j))) \div K)
QrHolds(a, m, n, q, r, p) ==
  /\ IsPerm(p, n) /\ Orthonormal(q, m, n)
  /\ \A i \in 1..n, j \in 1..n : j < i => At(r, n, i, j) = 0
  /\ \A i \in 1..(n - 1) : Abs(At(r, n, i + 1, i + 1)) <= Abs(At(r, n, i, i)) + 1
  /\ \A i \in 1..m, j \in 1..n : Near(FDot(Col(r, n, n, j), Row(q, n, i)), K * At(a, n, i, p[j]), 2 * n + Size(Col(r, n, n, j)) \div K)
(* the residual is square to every column *)
Normal(a, m, n, x, b) == Huge(x) \/ LET g == Gram(a, m, n) c == MulG(Tp(a, m, n), b, n, m, 1) IN
  \A i \in 1..n : Near(Dot(Row(g, n, i), x), K * c[i], Size(Row(g, n, i)) + 1)
SvdHolds(a, m, n, u, s, v) ==
  /\ Orthonormal(u, m, n) /\ Orthonormal(v, n, n)
  /\ \A i \in 1..n : s[i] >= 0 /\ (i < n => s[i + 1] <= s[i])
  /\ \A i \in 1..m, j \in 1..n : Near(Sum([k \in 1..n |-> At(a, n, i, k) * At(v, n, k, j)]), FMul(s[j], At(u, n, i, j)), Size(Row(a, n, i)) + 3 + s[j] \div K)
EigHolds(a, n, l, v) ==
  /\ Orthonormal(v, n, n)
  /\ \A i \in 1..(n - 1) : l[i + 1] <= l[i]
  /\ \A i \in 1..n, j \in 1..n : Near(Sum([k \in 1..n |-> At(a, n, i, k) * At(v, n, k, j)]), FMul(l[j], At(v, n, i, j)), Size(Row(a, n, i)) + 3 + Abs(l[j]) \div K)
(* largest over smallest, where the smallest is big enough to divide by; enormous otherwise *)
Quotient(c, hi, lo) == IF lo < 100 THEN c >= 100 * K ELSE Near(c \div 10, (hi * 1000) \div lo, 2 + (2 * (c \div 10)) \div lo)
(* the four Penrose conditions, p in 1/K *)
Penrose(a, m, n, p) == Huge(p) \/
  LET ap == MulG(a, p, m, n, m) pa == MulG(p, a, n, m, n) f == Size(a) IN
  /\ \A i \in 1..m, j \in 1..m : Near(At(ap, m, i, j), At(ap, m, j, i), f + 2)
  /\ \A i \in 1..n, j \in 1..n : Near(At(pa, n, i, j), At(pa, n, j, i), f + 2)
  /\ LET apa == MulG(ap, a, m, m, n) IN \A k \in 1..(m * n) : Near(apa[k], K * a[k], f * f + 2)
  /\ \A i \in 1..n, j \in 1..m : Near(FDot(Row(pa, n, i), Col(p, n, m, j)), At(p, m, i, j), (1 + Size(p) \div K) * (f + n + 2))
(* every leading minor decides; a zero one is left to rounding unless its diagonal already fails *)
Definite(a, n) == LET bad == {k \in 1..n : Lead(a, n, k) <= 0} IN
  IF bad = {} THEN "yes" ELSE LET k == SetMin(bad) IN IF Lead(a, n, k) < 0 \/ At(a, n, k, k) <= 0 THEN "no" ELSE "edge"
Mirror(a, n) == LET f(i, j) == IF i >= j THEN At(a, n, i, j) ELSE At(a, n, j, i) IN Mat(n, n, f)
(* -------------------------------------------------------------------------------------- *)
Ok(v) == Ret(0, "ok", v)
Err(r) == Ret(0, r, <<>>)
(* an observation that has to satisfy a relation, with the lengths it is made of *)
Such(w, len, p) == IF w.r = "ok" /\ Len(w.v) = len /\ p THEN Ok(w.v) ELSE Ok(<<OFF>>)
OneOf(w, S) == IF w.r \in S THEN Err(w.r) ELSE Err(CHOOSE r \in S : TRUE)
Part(w, k, len) == SubSeq(w.v, k, k + len - 1)
Singular2 == {"Singular", "IllConditioned"}
==================================================================================
