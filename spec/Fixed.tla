---------------------------------- MODULE Fixed ----------------------------------
(* Fixed-point real arithmetic in ten-thousandths, good to about two units:       *)
(* sine, cosine, whole square root, planar motions <<x, y, heading>>.              *)
EXTENDS Lattice, Trig
ONE == 10000
TAU == 62832
PI4 == 31416
(* rounded product and quotient of two fixed-point numbers                          *)
RDiv(x, y) == LET u == IF y > 0 THEN x ELSE -x d == IF y > 0 THEN y ELSE -y r == u % d IN (u \div d) + (IF r >= d - r THEN 1 ELSE 0)
FMul(x, y) == LET h == x \div ONE l == x % ONE IN h * y + (l * y + 5000) \div ONE      \* |y| < 2e5
(* sine on 0..pi/2: nearest table entry and two central-difference terms            *)
SinT(x) == LET k == (x + 100) \div 200 d == x - 200 * k s == Sin50[k + 1]
               \* derivative by central difference of the table: (s(k+1) - s(k-1)) / 400 per unit
               up == Sin50[k + 2] dn == IF k = 0 THEN -Sin50[2] ELSE Sin50[k] IN
   s + RDiv(d * (up - dn), 400) + RDiv(d * d * (up - 2 * s + dn), 80000)
Wrap(x) == LET n == (x + PI4) \div TAU m == x - n * TAU + RDiv(n * 1469, 10000) IN IF m > PI4 THEN m - TAU ELSE IF m <= -PI4 THEN m + TAU ELSE m   \* into (-pi, pi]
Sin4(x) == LET w == Wrap(x) a == Abs(w) q == IF a > 15708 THEN PI4 - a ELSE a IN Sgn(w) * SinT(q)
Cos4(x) == Sin4(x + 15708)
RECURSIVE RootIter(_, _)
RootIter(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE RootIter(n, y)
Root(n) == IF n <= 0 THEN 0 ELSE RootIter(n, IF n < 46340 THEN n ELSE 46340)   \* floor of the square root
(* planar rigid motions                                                              *)
PMul(p, q) == LET c == Cos4(p[3]) s == Sin4(p[3]) IN
   <<p[1] + FMul(q[1], c) - FMul(q[2], s), p[2] + FMul(q[1], s) + FMul(q[2], c), p[3] + q[3]>>
(* the arc of length s turning by o: where it ends, from the origin facing +x            *)
Arc(d, o) == IF Abs(o) <= 5000
   THEN LET q == FMul(o, o) IN <<d - RDiv(FMul(d, q), 6) + RDiv(FMul(FMul(d, q), q), 120), RDiv(FMul(d, o), 2) - RDiv(FMul(FMul(d, o), q), 24), o>>
   ELSE <<FMul(d, RDiv(Sin4(o) * ONE, o)), FMul(d, RDiv((ONE - Cos4(o)) * ONE, o)), o>>
==================================================================================
