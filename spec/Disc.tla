------------------------------------ MODULE Disc ------------------------------------
(* Matrix exponential, discretization, Lyapunov, Riccati and LQR. The exponential and    *)
(* the integrals of the discretizations are their defining series, added up here in      *)
(* millionths; solutions of equations have to satisfy them.                              *)
EXTENDS Mats
VARIABLES st, out
M6 == 1000000
Add(a, b) == TLCEval([k \in DOMAIN a |-> a[k] + b[k]])
Times(a, x) == TLCEval([k \in DOMAIN a |-> x * a[k]])
(* x * a / d, rounded, for x in millionths (m by n), a whole (n by n)                    *)
Next(x, a, m, n, d) == LET f(i, j) == RDiv(Sum([l \in 1..n |-> At(x, n, i, l) * At(a, n, l, j)]), d) IN Mat(m, n, f)
(* first + first a/(d 1+s) + first a a/(d d (1+s)(2+s)) + ...                            *)
RECURSIVE Series(_, _, _, _, _, _, _)
Series(x, a, m, n, d, s, k) == IF k = 30 \/ \A i \in DOMAIN x : x[i] = 0 THEN x ELSE Add(x, Series(Next(x, a, m, n, d * (k + s)), a, m, n, d, s, k + 1))
Exp6(a, n, d) == Series(Times(Eye(n), M6), a, n, n, d, 0, 1)
(* the input integral, by the same series shifted by one, times b t: everything over d, b t over e *)
Hold6(a, b, n, m, d, e) == LET g == Series(Times(Eye(n), M6), a, n, n, d, 1, 1)
                               f(i, j) == RDiv(Sum([l \in 1..n |-> At(g, n, i, l) * At(b, m, l, j)]), e) IN Mat(n, m, f)
(* sum of L^k(q) t^(k+1)/(k+1)!, L(x) = a x + x a': a over d, q t over e                    *)
RECURSIVE Noise(_, _, _, _, _)
Noise(x, a, n, d, k) == IF k = 30 \/ \A i \in DOMAIN x : x[i] = 0 THEN x ELSE
  LET f(i, j) == RDiv(Sum([l \in 1..n |-> At(a, n, i, l) * At(x, n, l, j) + At(a, n, j, l) * At(x, n, i, l)]), d * (k + 1)) IN
  Add(x, Noise(Mat(n, n, f), a, n, d, k + 1))
Noise6(a, q, n, d, e) == LET f(i, j) == RDiv(M6 * At(q, n, i, j), e) IN Noise(Mat(n, n, f), a, n, d, 1)
Close(v, x, t) == \A k \in DOMAIN x : Near(v[k], x[k], t + Abs(x[k]) \div 100000)
(* discrete stability of a/d, exactly: Jury's test                                       *)
Pow2(k) == LET RECURSIVE p(_) p(i) == IF i = 0 THEN 1 ELSE 2 * p(i - 1) IN p(k)
Minor2(a, n) == Sum([k \in 1..n |-> Sum([l \in 1..n |-> IF l <= k THEN 0 ELSE At(a, n, k, k) * At(a, n, l, l) - At(a, n, k, l) * At(a, n, l, k)])])
Stable(a, n, d) ==
  IF n = 1 THEN Abs(a[1]) < d
  ELSE IF n = 2 THEN Abs(Det(a, 2)) < d * d /\ d * Abs(Trace(a, 2)) < d * d + Det(a, 2)
  ELSE LET t == d * d * d c2 == -Trace(a, 3) * d * d c1 == Minor2(a, 3) * d c0 == -Det(a, 3) IN
       /\ Abs(c0) < t /\ t + c2 + c1 + c0 > 0 /\ t - c2 + c1 - c0 > 0
       /\ IF Abs(c0) < 20000 /\ t < 20000 /\ Abs(c1) < 20000 /\ Abs(c2) < 20000 THEN Abs(c0 * c0 - t * t) > Abs(c0 * c2 - c1 * t) ELSE FALSE
(* on the edge of it, where rounding a/d or its powers decides                            *)
Edge(a, n, d) == IF n = 1 THEN Abs(a[1]) = d /\ d = 5
  ELSE IF n = 2 THEN (Abs(Det(a, 2)) = d * d \/ d * Abs(Trace(a, 2)) = d * d + Det(a, 2))
  ELSE LET t == d * d * d c2 == -Trace(a, 3) * d * d c1 == Minor2(a, 3) * d c0 == -Det(a, 3) IN
       \/ Abs(c0) = t \/ t + c2 + c1 + c0 = 0 \/ t - c2 + c1 - c0 = 0
       \/ (IF Abs(c0) < 20000 /\ t < 20000 /\ Abs(c1) < 20000 /\ Abs(c2) < 20000 THEN Abs(c0 * c0 - t * t) = Abs(c0 * c2 - c1 * t) ELSE TRUE)
(* a' p a - p + q = 0, p in 1/K, a over d                                                 *)
LyapHolds(p, a, q, n, d) == Huge(p) \/
  /\ \A i \in 1..n, j \in 1..n : Near(At(p, n, i, j), At(p, n, j, i), 1)
  /\ \A i \in 1..n, j \in 1..n :
       LET ci == Col(a, n, n, i) cj == Col(a, n, n, j)
           y == [k \in 1..n |-> RDiv(Dot(Row(p, n, k), cj), d)] IN
       Near(RDiv(Dot(ci, y), d) + K * At(q, n, i, j), At(p, n, i, j), 3 + (Size(ci) * (Size(cj) + d)) \div (d * d))
(* The law at hand (1/K each): p cost-to-go, g gain, c closed loop; a, b, q, r whole      *)
Loop(a, b, g, c, n, m) == \A i \in 1..n, j \in 1..n : Near(At(c, n, i, j), K * At(a, n, i, j) - Sum([k \in 1..m |-> At(b, m, i, k) * At(g, n, k, j)]), 2 + Size(Row(b, m, i)))
PMulF(x, y) == FMul(x, y)
RicHolds(p, g, c, a, b, q, r, n, m) ==
  LET pb == MulG(p, b, n, n, m) IN
  /\ \A i \in 1..n, j \in 1..n : Near(At(p, n, i, j), At(p, n, j, i), 1)
  \* (r + b'pb) g = b'pa
  /\ \A i \in 1..m, j \in 1..n :
       LET w == [k \in 1..m |-> K * At(r, m, i, k) + Sum([l \in 1..n |-> At(b, m, l, i) * At(pb, m, l, k)])] IN
       Near(Sum([k \in 1..m |-> PMulF(w[k], At(g, n, k, j))]), Sum([l \in 1..n |-> At(pb, m, l, i) * At(a, n, l, j)]),
            2 + 4 * n * m + Size(w) \div K + Size(Col(b, n, m, i)) * (Size(Col(a, n, n, j)) + Size(Col(g, m, n, j)) \div K))
  \* a'p(a - bg) + q = p
  /\ \A i \in 1..n, j \in 1..n :
       LET y == [k \in 1..n |-> Sum([l \in 1..n |-> At(a, n, l, i) * At(p, n, l, k)])] IN
       Near(Sum([k \in 1..n |-> PMulF(y[k], At(c, n, k, j))]) + K * At(q, n, i, j), At(p, n, i, j), 4 + 2 * n + Size(y) \div K + Size(Col(a, n, n, i)) * (1 + Size(Col(c, n, n, j)) \div K))
(* c'pc - p + q = 0 with a loop in 1/K                                                     *)
CertHolds(p, c, q, n) ==
  \A i \in 1..n, j \in 1..n :
     LET y == [k \in 1..n |-> FDot(Row(p, n, k), Col(c, n, n, j))] IN
     Near(Sum([k \in 1..n |-> PMulF(y[k], At(c, n, k, i))]) + K * At(q, n, i, j), At(p, n, i, j), 6 + 4 * n + (Size(Row(p, n, i)) + Size(y) + Size(p)) \div 2000)
(* every direction that does not shrink by itself can be pushed: yes, no, or not decided here *)
Reach(a, b, n, m) ==
  IF Stable(a, n, 1) THEN "yes"
  ELSE IF n = 1 THEN IF \E k \in 1..m : b[k] # 0 THEN "yes" ELSE "no"
  ELSE IF \A k \in 1..(n * m) : b[k] = 0 THEN "no"
  ELSE IF m = 1 THEN
    LET ab == MulG(a, b, n, n, 1) aab == MulG(a, ab, n, n, 1) f(i, j) == IF j = 1 THEN b[i] ELSE IF j = 2 THEN ab[i] ELSE aab[i] IN
    IF Det(Mat(n, n, f), n) # 0 THEN "yes"
    \* b is a direction of its own: the other rate is what it leaves of the trace
    ELSE IF n = 2 THEN LET bb == Dot(b, b) other == Trace(a, 2) * bb - Dot(b, ab) IN IF Abs(other) < bb THEN "yes" ELSE "no"
    ELSE "open"
  ELSE IF n = 2 /\ Det(b, 2) # 0 THEN "yes" ELSE "open"
Large(v, z) == \E k \in DOMAIN v : Abs(v[k]) > z
Unsolved == {"DidNotConverge", "Singular", "IllConditioned", "NotPositiveDefinite"}
LyapUnsolved == {"DidNotConverge"}
(* ------------------------------------------------------------------------------------- *)
Init == st = 0 /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
BadStep(t) == ~Finite(t) \/ t < 0
Apply(s, op, a, w) ==
  LET n == a[1] sq == n * n IN
  CASE op = "expm" -> \* n, d, a
         LET A == SubSeq(a, 3, 2 + sq) e == Exp6(A, n, a[2]) IN Such(w, sq, Sane(w.v) /\ Close(w.v, e, 40))
    [] op = "turn" -> \* a plane turned by q ten-thousandths of a radian while shrinking 2^k times
         LET c == Cos4(a[3]) s4 == Sin4(a[3]) g(x) == IF a[2] >= 0 THEN x * Pow2(a[2]) ELSE RDiv(x, Pow2(-a[2])) IN
         Such(w, 4, Sane(w.v) /\ LET x == <<g(c), g(-s4), g(s4), g(c)>> IN \A k \in 1..4 : Near(w.v[k], x[k], 6 + 6 * (IF a[2] > 0 THEN Pow2(a[2]) ELSE 1)))
    [] op = "modes" -> \* n, exponents of two, p, its inverse: p diag(2^k) p^-1 in 2^-8
         LET ks == SubSeq(a, 2, n + 1) p == SubSeq(a, n + 2, n + 1 + sq) pi == SubSeq(a, n + 2 + sq, n + 1 + 2 * sq) f(i, j) == At(p, n, i, j) * Pow2(8 + ks[j]) IN
         IF \E k \in 1..n : ks[k] > 1100 THEN Err("NonFinite")
         ELSE IF MulG(p, pi, n, n, n) # Eye(n) THEN Assert(FALSE, "inverse")
         ELSE Ok(MulG(Mat(n, n, f), pi, n, n, n))
    [] op = "chain" -> \* p N p^-1, N strictly upper with ones times c on the next diagonal: exact, in 1/24
         LET c == a[2] p == SubSeq(a, 3, 2 + sq) pi == SubSeq(a, 3 + sq, 2 + 2 * sq)
             f(i, j) == IF j < i THEN 0 ELSE CASE j - i = 0 -> 24 [] j - i = 1 -> 24 * c [] j - i = 2 -> 12 * c * c [] j - i = 3 -> 4 * c * c * c [] OTHER -> 0 IN
         IF MulG(p, pi, n, n, n) # Eye(n) THEN Assert(FALSE, "inverse")
         ELSE Ok(MulG(MulG(p, Mat(n, n, f), n, n, n), pi, n, n, n))
    [] op = "wild" -> \* one entry of the matrix is a[2]; 1: a largest number in two entries of a column
         Err("NonFinite")
    [] op = "zoh" -> \* n, m, d, p, q: a over d, step p/q
         LET m == a[2] d == a[3] p == a[4] q == a[5] A == SubSeq(a, 6, 5 + sq) b == SubSeq(a, 6 + sq, 5 + sq + n * m) IN
         IF BadStep(p) THEN Err("InvalidTimestep")
         ELSE Such(w, sq + n * m, Sane(w.v) /\ Close(Part(w, 1, sq), Exp6(Times(A, p), n, d * q), 40) /\ Close(Part(w, sq + 1, n * m), Hold6(Times(A, p), Times(b, p), n, m, d * q, q), 100))
    [] op = "loan" ->
         LET d == a[2] p == a[3] q == a[4] A == SubSeq(a, 5, 4 + sq) Q == SubSeq(a, 5 + sq, 4 + 2 * sq) IN
         IF BadStep(p) THEN Err("InvalidTimestep")
         ELSE Such(w, 2 * sq, Sane(w.v) /\ Close(Part(w, 1, sq), Exp6(Times(A, p), n, d * q), 40) /\ Close(Part(w, sq + 1, sq), Noise6(Times(A, p), Times(Q, p), n, d * q, q), 200))
    [] op = "white" -> \* n states, step p/2, variance: how one push of noise reaches each state, in 1/48
         LET p == a[2] h == CASE n = 2 -> <<p * p * 6, p * 24>> [] n = 3 -> <<p * p * 6, p * 24, 48>> [] n = 4 -> <<p * p * p, p * p * 6, p * 24, 48>>
             f(i, j) == h[i] * h[j] * a[3] IN Ok(Mat(n, n, f))
    [] op = "lyap" ->
         LET d == a[2] A == SubSeq(a, 3, 2 + sq) q == SubSeq(a, 3 + sq, 2 + 2 * sq)
             bad == (IF AllFinite(A) /\ AllFinite(q) THEN {} ELSE {"NonFinite"}) \cup (IF Sym(q, n) THEN {} ELSE {"NotSymmetric"}) IN
         IF bad # {} THEN OneOf(w, bad)
         ELSE IF Stable(A, n, d) THEN Such(w, sq, Sane(w.v) /\ LyapHolds(w.v, A, q, n, d))
         ELSE IF Edge(A, n, d) THEN IF w.r = "ok" THEN Such(w, sq, Huge(w.v) \/ LyapHolds(w.v, A, q, n, d)) ELSE OneOf(w, LyapUnsolved)
         ELSE IF Definite(q, n) = "yes" THEN OneOf(w, LyapUnsolved)
         ELSE IF w.r = "ok" THEN Such(w, sq, Sane(w.v) /\ LyapHolds(w.v, A, q, n, d)) ELSE OneOf(w, LyapUnsolved)
    [] op = "lqr" -> \* n, m, a, b, q, r, x, x0, u0: p, gain, loop; input, tracking input; certificate's outcome and its matrix
         LET m == a[2] A == SubSeq(a, 3, 2 + sq) b == SubSeq(a, 3 + sq, 2 + sq + n * m) q == SubSeq(a, 3 + sq + n * m, 2 + 2 * sq + n * m)
             t0 == 2 + 2 * sq + n * m r == SubSeq(a, t0 + 1, t0 + m * m) x == SubSeq(a, t0 + m * m + 1, t0 + m * m + n) x0 == SubSeq(a, t0 + m * m + n + 1, t0 + m * m + 2 * n)
             u0 == SubSeq(a, t0 + m * m + 2 * n + 1, t0 + m * m + 2 * n + m)
             bad == (IF AllFinite(A) /\ AllFinite(b) /\ AllFinite(q) /\ AllFinite(r) THEN {} ELSE {"NonFinite"}) \cup (IF Sym(q, n) /\ Sym(r, m) THEN {} ELSE {"NotSymmetric"})
             t1 == 2 * sq + n * m
             P == Part(w, 1, sq) G == Part(w, sq + 1, n * m) L == Part(w, sq + n * m + 1, sq) U == Part(w, t1 + 1, m) V == Part(w, t1 + m + 1, m) ct == t1 + 2 * m + 1
             holds == Such(w, ct + sq, Sane(w.v) /\ (Large(P, 2000000) \/ Large(G, 100000) \/ Large(L, 100000) \/ Large(Part(w, ct + 1, sq), 2000000) \/
               ( Loop(A, b, G, L, n, m) /\ RicHolds(P, G, L, A, b, q, r, n, m)
               /\ (\A i \in 1..m : Near(U[i], -Dot(Row(G, n, i), x), 1 + Size(x)))
               /\ (\A i \in 1..m : Near(V[i], K * u0[i] - Sum([j \in 1..n |-> At(G, n, i, j) * (x[j] - x0[j])]), 1 + Size(x) + Size(x0)))
               \* a certificate where every direction costs; with one, the loop's own equation
               /\ (Definite(q, n) = "yes" => w.v[ct] = 1)
               /\ (w.v[ct] = 1 => CertHolds(Part(w, ct + 1, sq), L, q, n))))) IN
         IF bad # {} THEN OneOf(w, bad)
         ELSE IF Definite(r, m) = "no" THEN Err("NotPositiveDefinite")
         ELSE IF Definite(r, m) = "edge" THEN (IF w.r = "ok" THEN Ok(w.v) ELSE OneOf(w, Unsolved))
         ELSE IF Definite(q, n) # "yes" \/ Reach(A, b, n, m) = "open" THEN (IF w.r = "ok" THEN holds ELSE OneOf(w, Unsolved))
         ELSE IF Reach(A, b, n, m) = "yes" THEN holds
         ELSE OneOf(w, Unsolved)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E n \in {Apply(st, op, a, w)} : st' = n.st /\ out' = [op |-> op, a |-> a, r |-> n.r, v |-> n.v]
(* laws of the model itself, on whatever was explored *)
Equations == out.op = "zoh" /\ out.r = "ok" /\ out.a[1] = 2 => LET a == out.a A == SubSeq(a, 6, 9) IN
   \* half a step twice is a step
   LET h == Exp6(Times(A, a[4]), 2, 2 * a[3] * a[5]) f(i, j) == RDiv(Sum([l \in 1..2 |-> (At(h, 2, i, l) \div 100) * (At(h, 2, l, j) \div 100)]), 100) IN
   \A k \in 1..4 : Near(Mat(2, 2, f)[k], Exp6(Times(A, a[4]), 2, a[3] * a[5])[k], 600)
=====================================================================================
