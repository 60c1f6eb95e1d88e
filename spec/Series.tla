---------------------------------- MODULE Series ----------------------------------
(* Polynomials in two infinitesimals, of degree four in the first and one in the      *)
(* second: ten coefficients, the powers of the first running fastest. Whole-number     *)
(* coefficients (ring operations) or ten-thousandths (the rest). No state of its own.  *)
EXTENDS Fixed
Ix(i, j) == 1 + i + 5 * j
Pi(k) == (k - 1) % 5
Pj(k) == (k - 1) \div 5
Tuple(f(_)) == TLCEval([k \in 1..10 |-> f(k)])
Cst(x) == [k \in 1..10 |-> IF k = 1 THEN x ELSE 0]
SAdd(a, b) == LET f(k) == a[k] + b[k] IN Tuple(f)
SSub(a, b) == LET f(k) == a[k] - b[k] IN Tuple(f)
SNeg(a) == LET f(k) == -a[k] IN Tuple(f)
STimes(a, x) == LET f(k) == x * a[k] IN Tuple(f)
Mx(a) == SetMax({Abs(a[k]) : k \in 1..10})
(* the pairs a coefficient of a product is made of                                     *)
Ways(k) == {<<p, q>> \in (0..Pi(k)) \X (0..Pj(k)) : TRUE}
WaysOf == [k \in 1..10 |-> LET RECURSIVE g(_) g(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<<<Ix(x[1], x[2]), Ix(Pi(k) - x[1], Pj(k) - x[2])>>>> \o g(s \ {x}) IN g(Ways(k))]
SMulBy(m(_, _), a, b) == LET f(k) == Sum([i \in 1..Len(WaysOf[k]) |-> m(a[WaysOf[k][i][1]], b[WaysOf[k][i][2]])]) IN Tuple(f)
Whole(x, y) == x * y
ZMul(a, b) == SMulBy(Whole, a, b)
(* a / b where b's value is one or minus one: exact                                     *)
RECURSIVE ZDivR(_, _, _)
ZDivR(c, a, b) == IF Len(c) = 10 THEN c ELSE LET k == Len(c) + 1 w == WaysOf[k] IN
  ZDivR(Append(c, b[1] * (a[k] - Sum([i \in 1..Len(w) |-> IF w[i][1] = k THEN 0 ELSE c[w[i][1]] * b[w[i][2]]]))), a, b)
ZDiv(a, b) == ZDivR(<<>>, a, b)
RECURSIVE ZPow(_, _)
ZPow(a, n) == IF n = 0 THEN Cst(1) ELSE ZMul(a, ZPow(a, n - 1))
(* ---- ten-thousandths --------------------------------------------------------------- *)
FM(x, y) == LET h == x \div ONE l == x % ONE yh == y \div 100 yl == y % 100 IN h * y + RDiv(l * yh + RDiv(l * yl, 100), 100)       \* up to 200 by 200
FD(x, y) == LET b == Abs(y) q == Abs(x) \div b r == Abs(x) % b IN Sgn(x) * Sgn(y) * (q * ONE + (IF b <= 200000 THEN RDiv(r * ONE, b) ELSE RDiv(r * 1000, b \div 10)))    \* y up to 200, coarser above 20
SMul(a, b) == SMulBy(FM, a, b)
RECURSIVE SDivR(_, _, _)
SDivR(c, a, b) == IF Len(c) = 10 THEN c ELSE LET k == Len(c) + 1 w == WaysOf[k] IN
  SDivR(Append(c, FD(a[k] - Sum([i \in 1..Len(w) |-> IF w[i][1] = k THEN 0 ELSE FM(c[w[i][1]], b[w[i][2]])]), b[1])), a, b)
SDiv(a, b) == SDivR(<<>>, a, b)
Root4(x) == IF x = 0 THEN 0 ELSE LET y == Root(x) * 100 z == (y + FD(x, y)) \div 2 IN (z + FD(x, z)) \div 2
RECURSIVE SRootR(_, _)
SRootR(c, a) == IF Len(c) = 10 THEN c ELSE LET k == Len(c) + 1 w == WaysOf[k] IN
  SRootR(Append(c, FD(a[k] - Sum([i \in 1..Len(w) |-> IF w[i][1] \in {1, k} THEN 0 ELSE FM(c[w[i][1]], c[w[i][2]])]), 2 * c[1])), a)
SRoot(a) == SRootR(<<Root4(a[1])>>, a)
(* derivatives by either infinitesimal                                                  *)
D1(a) == LET f(k) == IF Pi(k) = 4 THEN 0 ELSE (Pi(k) + 1) * a[k + 1] IN Tuple(f)
D2(a) == LET f(k) == IF Pj(k) = 1 THEN 0 ELSE a[k + 5] IN Tuple(f)
(* t1 + t2 h + t3 h^2 + ...: a function from its Taylor coefficients at the value        *)
RECURSIVE Horner(_, _, _)
Horner(t, h, k) == IF k = 6 THEN Cst(t[6]) ELSE SAdd(SMul(Horner(t, h, k + 1), h), Cst(t[k]))
Around(t, u) == Horner(t, [u EXCEPT ![1] = 0], 1)
(* the exponential in millionths for arguments up to three                               *)
RECURSIVE ExpR(_, _, _)
ExpR(t, x, k) == IF k = 30 \/ t = 0 THEN t ELSE t + ExpR(RDiv((t \div ONE) * x + RDiv((t % ONE) * x, ONE), k), x, k + 1)
Exp6of(x) == ExpR(1000000, x, 1)
Exp4(x) == RDiv(Exp6of(x), 100)
RECURSIVE LogR(_, _, _)
LogR(y, x, k) == IF k = 0 THEN y ELSE LogR(Clamp(y - ONE + FM(x, Exp4(-y)), -25000, 25000), x, k - 1)
Log4(x) == LogR(5000, x, 9)                                              \* x within 1/8..8
===================================================================================
