----------------------------------- MODULE Linalg -----------------------------------
(* Direct dense linear algebra on whole-number matrices, row by row. What can be exact  *)
(* (determinants, ranks, minors, products) is; factors and solutions are observed in     *)
(* ten-thousandths and have to satisfy the equations that define them.                   *)
EXTENDS Mats
VARIABLES st, out
Init == st = 0 /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  LET m == a[1] n == a[2] A == SubSeq(a, 3, 2 + m * n) e == SubSeq(a, 3 + m * n, Len(a)) IN
  CASE op = "det" -> Ok(<<Det(A, n), Trace(A, n)>>)
    [] op = "basics" -> \* transpose, row and column, norm squared, product with its transpose, scaled, sums
         Ok(Tp(A, m, n) \o Row(A, n, e[1]) \o Col(A, m, n, e[2]) \o <<Dot(A, A)>> \o MulG(A, Tp(A, m, n), m, n, m) \o [i \in DOMAIN A |-> 3 * A[i]] \o [i \in DOMAIN A |-> -A[i]] \o <<B(AllFinite(A))>>)
    [] op = "square" -> \* diagonal, twice the symmetric part, symmetric, a v
         Ok([i \in 1..n |-> At(A, n, i, i)] \o [k \in DOMAIN A |-> A[k] + Tp(A, n, n)[k]] \o <<B(Sym(A, n))>> \o MulG(A, e, n, n, 1))
    [] op = "vector" -> LET x == SubSeq(e, 1, n) y == SubSeq(e, n + 1, 2 * n) IN
         Ok(<<Dot(x, y), Dot(x, x)>> \o [i \in 1..n |-> x[i] + y[i]] \o [i \in 1..n |-> x[i] - y[i]] \o [i \in 1..n |-> -2 * x[i]]
            \o (IF Dot(x, x) = 0 THEN <<0>> \o Rep(n, 0) ELSE <<1>> \o (IF w.r = "ok" /\ Len(w.v) = 4 * n + 3 /\ Sane(w.v)
                 /\ \A i \in 1..n : Near(Dot(x, x) * FMul(Part(w, 3 * n + 4, n)[i], Part(w, 3 * n + 4, n)[i]), K * x[i] * x[i], 3 * Dot(x, x)) /\ Sgn(Part(w, 3 * n + 4, n)[i]) = Sgn(x[i])
                 THEN Part(w, 3 * n + 4, n) ELSE <<OFF>>)))
    [] op = "lu" -> IF Det(A, n) = 0 THEN OneOf(w, Singular2)
         ELSE LET q == n * n IN Such(w, 2 * q + n + 1, Sane(w.v) /\ LuHolds(A, n, Part(w, 1, q), Part(w, q + 1, q), Part(w, 2 * q + 1, n)) /\ w.v[2 * q + n + 1] = Det(A, n))
    [] op = "solve" -> \* one call, a kept factorization, two right-hand sides at once
         LET b == SubSeq(e, 1, n) c == SubSeq(e, n + 1, 2 * n) IN
         IF Det(A, n) = 0 THEN OneOf(w, Singular2)
         ELSE Such(w, 4 * n, Sane(w.v) /\ Solves(A, n, Part(w, 1, n), b) /\ Part(w, n + 1, n) = Part(w, 1, n) /\ Part(w, 2 * n + 1, n) = Part(w, 1, n) /\ Solves(A, n, Part(w, 3 * n + 1, n), c))
    [] op = "inverse" -> IF Det(A, n) = 0 THEN (IF n <= 4 THEN Err("Singular") ELSE OneOf(w, Singular2))
         ELSE Such(w, n * n, Sane(w.v) /\ Inverts(A, n, w.v))
    [] op = "edge" -> \* all ones on the diagonal but the last, 2^-e[1]; rows turned by e[2]
         LET k == e[1] sg == IF e[2] % 2 = 1 /\ n % 2 = 0 THEN -1 ELSE 1 IN
         Ok(<<IF k = 0 THEN 2 ELSE IF n > 1 /\ k >= 52 THEN 1 ELSE 0,                   \* factorization: fine, ill conditioned, singular
              IF n <= 4 THEN (IF n > 1 /\ k \in 46..59 THEN (IF w.r = "ok" /\ w.v[2] \in {0, 2} THEN w.v[2] ELSE 0) ELSE IF k = 0 \/ (n > 1 /\ k >= 60) THEN 2 ELSE 0) ELSE (IF k = 0 THEN 2 ELSE IF k >= 52 THEN 1 ELSE 0),
              IF k = 0 THEN 0 ELSE sg>>)                                        \* determinant times 2^k
    [] op = "chol" -> LET S == Mirror(A, n) d == Definite(S, n) q == n * n IN
         IF ~AllFinite(SubSeq(e, 1, n)) THEN Err("NotPositiveDefinite")         \* NaN put on the diagonal
         ELSE IF d = "no" THEN Err("NotPositiveDefinite")
         ELSE IF d = "edge" THEN (IF w.r = "ok" THEN Ok(w.v) ELSE Err("NotPositiveDefinite"))
         ELSE Such(w, 2 * q + n + 1, Sane(w.v) /\ CholHolds(S, n, Part(w, 1, q)) /\ Inverts(S, n, Part(w, q + 1, q)) /\ Solves(S, n, Part(w, 2 * q + 1, n), SubSeq(e, 1, n)) /\ w.v[2 * q + n + 1] = Det(S, n))
    [] op = "qr" -> IF m < n THEN Err("Underdetermined")
         ELSE Such(w, m * n + n * n + n, Sane(w.v) /\ QrHolds(A, m, n, Part(w, 1, m * n), Part(w, m * n + 1, n * n), Part(w, m * n + n * n + 1, n)))
    [] op = "ls" -> IF ~FullRank(A, m, n) THEN Err("Singular") ELSE Such(w, n, Sane(w.v) /\ Normal(A, m, n, w.v, e))
    [] op = "damped" -> \* D, b, z, x0, |b| scale: x; z (A'A + D^2) z through the factor; |A x0|^2; full rank; scaled gradient
         LET d == SubSeq(e, 1, n) b == SubSeq(e, n + 1, n + m) z == SubSeq(e, n + m + 1, 2 * n + m) x0 == SubSeq(e, 2 * n + m + 1, 3 * n + m) bn == e[3 * n + m + 1]
             f(i, j) == B(i = j) * d[i] * d[i] + At(Gram(A, m, n), n, i, j) N == Mat(n, n, f) c == MulG(Tp(A, m, n), b, n, m, 1) ax == MulG(A, x0, m, n, 1)
             g(j) == LET k == At(Gram(A, m, n), n, j, j) IN IF k = 0 THEN 0 ELSE (c[j] * c[j] * 1000) \div (k * bn * bn) IN
         Such(w, n + 4, Sane(w.v) /\ (Huge(Part(w, 1, n)) \/ \A i \in 1..n : Near(Dot(Row(N, n, i), Part(w, 1, n)), K * c[i], Size(Row(N, n, i)) + 1))
                        /\ (Det(N, n) # 0 => w.v[n + 1] = Dot(z, MulG(N, z, n, n, 1))) /\ w.v[n + 2] = Dot(ax, ax) /\ w.v[n + 3] = B(FullRank(A, m, n))
                        /\ Near(w.v[n + 4], IF bn = 0 THEN 0 ELSE SetMax({g(j) : j \in 1..n}), 1))
    [] op = "svd" ->
         LET bad == (IF m < n THEN {"Underdetermined"} ELSE {}) \cup (IF AllFinite(A) THEN {} ELSE {"NonFinite"}) IN
         IF bad # {} THEN OneOf(w, bad)
         ELSE Such(w, m * n + n + n * n + 2 + n, Sane(w.v) /\ LET u == Part(w, 1, m * n) sv == Part(w, m * n + 1, n) v == Part(w, m * n + n + 1, n * n) t == m * n + n + n * n IN
                SvdHolds(A, m, n, u, sv, v) /\ w.v[t + 1] = Rank(A, m, n)
                /\ Quotient(w.v[t + 2], sv[1], IF FullRank(A, m, n) THEN sv[n] ELSE 0)
                /\ (FullRank(A, m, n) => Normal(A, m, n, Part(w, t + 3, n), e)))
    [] op = "pinv" -> IF ~AllFinite(A) THEN Err("NonFinite") ELSE Such(w, m * n, Sane(w.v) /\ Penrose(A, m, n, w.v))
    [] op = "eig" ->
         LET bad == (IF AllFinite(A) THEN {} ELSE {"NonFinite"}) \cup (IF Sym(A, n) THEN {} ELSE {"NotSymmetric"}) q == n * n IN
         IF bad # {} THEN OneOf(w, bad)
         ELSE Such(w, n + 2 * q + 3, Sane(w.v) /\ LET l == Part(w, 1, n) v == Part(w, n + 1, q) c == Part(w, n + q + 1, q) t == n + 2 * q IN
                EigHolds(A, n, l, v) /\ w.v[t + 1] = Det(A, n)
                /\ (Definite(A, n) = "edge" \/ w.v[t + 2] = B(Definite(A, n) = "yes"))
                /\ LET mags == {Abs(l[i]) : i \in 1..n} IN
                   Quotient(w.v[t + 3], SetMax(mags), IF Det(A, n) = 0 THEN 0 ELSE SetMin(mags))
                /\ Sym(c, n)
                /\ \A i \in 1..n, j \in 1..n : Near(FDot(Row(c, n, i), Col(v, n, n, j)), FMul(MaxOf(l[j], K * e[1]), At(v, n, i, j)), 3 * n + Size(Row(c, n, i)) \div K + Abs(MaxOf(l[j], K * e[1])) \div K))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E n \in {Apply(st, op, a, w)} : st' = n.st /\ out' = [op |-> op, a |-> a, r |-> n.r, v |-> n.v]
(* ---- laws of the exact part ---------------------------------------------------------------- *)
Laws == out.op = "det" => LET n == out.a[2] A == SubSeq(out.a, 3, 2 + n * n) IN
   /\ Det(Tp(A, n, n), n) = Det(A, n)
   /\ n > 1 => Det(Row(A, n, 2) \o Row(A, n, 1) \o SubSeq(A, 2 * n + 1, n * n), n) = -Det(A, n)
   /\ n <= 3 => Det(MulG(A, Tp(A, n, n), n, n, n), n) = Det(A, n) * Det(A, n)
   /\ n <= 3 => (Rank(A, n, n) = n <=> Det(A, n) # 0)
=====================================================================================
