---------------------------------- MODULE Autodiff ----------------------------------
(* Programs over the autodiff scalars. A register is a polynomial in two             *)
(* infinitesimals; every type carries the part of it that it has room for, and the    *)
(* program does the same thing to all of them. Ring operations are exact; the          *)
(* transcendental ones follow from their differential equations and their values.      *)
EXTENDS Series
VARIABLES st, out
Near(x, y, t) == Abs(x - y) <= t
(* what plain, dual, hyper-dual, jet, dual-of-dual and jet-of-dual show of a register    *)
Order == <<1, 1, 2, 1, 2, 6, 7, 1, 2, 3, 4, 5, 1, 2, 6, 7, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>
Show(c) == [k \in 1..26 |-> c[Order[k]]]
Last10(v) == SubSeq(v, 17, 26)
Agree(v) == \A k \in 1..16 : LET x == v[16 + Order[k]] IN Near(v[k], x, 1 + Abs(x) \div 20000)
Fact == <<1, 1, 2, 6, 24>>
(* ---- ring operations: the polynomial in the first register, a[1] the target ---------- *)
Ring(s, op, a) ==
  LET x == s[a[2] + 1] y == s[a[3] + 1] IN
  CASE op = "add" \/ op = "add=" -> SAdd(x, y)
    [] op = "sub" \/ op = "sub=" -> SSub(x, y)
    [] op = "mul" \/ op = "mul=" -> ZMul(x, y)
    [] op = "div" \/ op = "div=" \/ op = "safe_div" -> ZDiv(x, y)
    [] op = "recip" -> ZDiv(Cst(1), x)
    [] op = "neg" -> SNeg(x)
    [] op = "abs" -> IF x[1] < 0 THEN SNeg(x) ELSE x
    [] op = "sign" -> Cst(Sgn(x[1]))
    [] op = "max" -> IF x[1] > y[1] THEN x ELSE y
    [] op = "min" -> IF x[1] < y[1] THEN x ELSE y
    [] op = "copysign" -> IF (x[1] < 0) = (y[1] < 0) THEN x ELSE SNeg(x)
    [] op = "powi" -> IF a[3] >= 0 THEN ZPow(x, a[3]) ELSE ZDiv(Cst(1), ZPow(x, -a[3]))
    [] op = "mul_add" -> SAdd(ZMul(x, y), s[a[4] + 1])
    [] op = "clamp" -> IF x[1] < a[3] THEN Cst(a[3]) ELSE IF x[1] > a[4] THEN Cst(a[4]) ELSE x
    [] op = "branch" -> IF x[1] < y[1] THEN SSub(ZMul(x, x), y) ELSE IF x[1] = y[1] THEN SAdd(x, Cst(1)) ELSE SAdd(ZMul(y, y), x)
    [] op = "kadd" -> SAdd(Cst(a[3]), x)
    [] op = "ksub" -> SSub(Cst(a[3]), x)
    [] op = "kmul" -> STimes(x, a[3])
    [] op = "kdiv" -> ZDiv(Cst(a[3]), x)
(* max and min of equal values: the types need not agree which payload                     *)
Consts == <<0, 1, 2, 3, 10, 100, 180>>
(* ---- transcendental operations -------------------------------------------------------- *)
Large(a) == \E k \in 1..10 : Abs(a[k]) > 1400000
Tol(g) == 8 + g \div 1000
Same(x, y, g) == Large(x) \/ Large(y) \/ \A k \in 1..10 : Near(x[k], y[k], Tol(Mx(x) + g))
(* f Dy = g Du, and likewise by the other infinitesimal                                     *)
Ode(f, y, g, u) ==
  LET a == SMul(f, D1(y)) b == SMul(g, D1(u)) c == SMul(f, D2(y)) d == SMul(g, D2(u)) t == Tol(Mx(a) + Mx(c) + Mx(y) + Mx(f) + Mx(g)) * (1 + (Mx(f) + Mx(g)) \div 40000) IN
  /\ \A k \in 1..10 : Pi(k) = 4 \/ Near(a[k], b[k], t)
  /\ \A k \in 1..5 : Near(c[k], d[k], t)
ICst == Cst(ONE)
LN2 == 6931
LN10 == 23026
Over(x, n) == LET f(k) == RDiv(x[k], n) IN Tuple(f)
Trig6(s, c) == <<s, c, RDiv(-s, 2), RDiv(-c, 6), RDiv(s, 24), RDiv(c, 120)>>
Func(f, u, v, y) ==
  LET u0 == u[1] y0 == y[1] e == Exp4(u0) m == Exp4(-u0) IN
  CASE f = "sqrt" -> Near(y0, Root4(u0), 2) /\ Same(SMul(y, y), u, 2 * Mx(y))
    [] f = "cbrt" -> Sgn(y0) = Sgn(u0) /\ Same(SMul(SMul(y, y), y), u, 8 * Mx(y))
    [] f = "sin" -> Same(y, Around(Trig6(Sin4(u0), Cos4(u0)), u), ONE)
    [] f = "cos" -> Same(y, Around(Trig6(Cos4(u0), -Sin4(u0)), u), ONE)
    [] f = "tan" -> Near(FM(y0, Cos4(u0)), Sin4(u0), 8) /\ Ode(ICst, y, SAdd(ICst, SMul(y, y)), u)
    [] f = "exp" -> Near(y0, e, 4 + e \div 5000) /\ Ode(ICst, y, y, u)
    [] f = "expm1" -> Near(y0, e - ONE, 4 + e \div 5000) /\ Ode(ICst, y, SAdd(y, ICst), u)
    [] f = "log" -> Near(y0, Log4(u0), 6) /\ Ode(u, y, ICst, u)
    [] f = "ln_1p" -> Near(y0, Log4(u0 + ONE), 6) /\ Ode(SAdd(u, ICst), y, ICst, u)
    [] f = "log2" -> Near(FM(y0, LN2), Log4(u0), 6) /\ Ode(SMul(u, Cst(LN2)), y, ICst, u)
    [] f = "log10" -> Near(FM(y0, LN10), Log4(u0), 6) /\ Ode(SMul(u, Cst(LN10)), y, ICst, u)
    [] f = "atan" -> Abs(y0) < 15709 /\ Near(Sin4(y0), FM(u0, Cos4(y0)), 8) /\ Ode(SAdd(ICst, SMul(u, u)), y, ICst, u)
    [] f = "asin" -> Abs(y0) < 15709 /\ Near(Sin4(y0), u0, 4) /\ Ode(SRoot(SSub(ICst, SMul(u, u))), y, ICst, u)
    [] f = "acos" -> y0 >= 0 /\ y0 <= 31416 /\ Near(Cos4(y0), u0, 4) /\ Ode(SRoot(SSub(ICst, SMul(u, u))), y, SNeg(ICst), u)
    [] f = "sinh" -> LET s == RDiv(e - m, 2) c == RDiv(e + m, 2) IN Same(y, Around(<<s, c, RDiv(s, 2), RDiv(c, 6), RDiv(s, 24), RDiv(c, 120)>>, u), 4 * ONE + 4 * c)
    [] f = "cosh" -> LET s == RDiv(e - m, 2) c == RDiv(e + m, 2) IN Same(y, Around(<<c, s, RDiv(c, 2), RDiv(s, 6), RDiv(c, 24), RDiv(s, 120)>>, u), 4 * ONE + 4 * c)
    [] f = "tanh" -> Near(FM(y0, e + m), e - m, 8 + (e + m) \div 2000) /\ Ode(ICst, y, SSub(ICst, SMul(y, y)), u)
    [] f = "atan2" -> LET h == Root4(FM(u0, u0) + FM(v[1], v[1])) q == SAdd(SMul(u, u), SMul(v, v)) IN
         /\ Abs(y0) <= 31416 /\ Near(FM(h, Sin4(y0)), u0, 20) /\ Near(FM(h, Cos4(y0)), v[1], 20)
         /\ LET a == SMul(q, D1(y)) b == SSub(SMul(v, D1(u)), SMul(u, D1(v))) c == SMul(q, D2(y)) d == SSub(SMul(v, D2(u)), SMul(u, D2(v))) t == Tol(Mx(a) + Mx(b) + Mx(y)) * (1 + Mx(q) \div 20000) IN
            (\A k \in 1..10 : Pi(k) = 4 \/ Near(a[k], b[k], t)) /\ (\A k \in 1..5 : Near(c[k], d[k], t))
    [] f = "hypot" -> y0 >= 0 /\ Same(SMul(y, y), SAdd(SMul(u, u), SMul(v, v)), 4 * Mx(y))
    [] f = "powf" -> \* y = exp(v l), l = log u
         LET l0 == Log4(u0) lu == SDiv(D1(u), u) lv == SDiv(D2(u), u)
             lf(k) == IF k = 1 THEN l0 ELSE IF Pi(k) > 0 THEN RDiv(lu[k - 1], Pi(k)) ELSE lv[1]
             \* the powers of the first by integrating its derivative, the pure second from its own
             l == Tuple(lf) x == SMul(v, l) ex == IF Abs(x[1]) < 30000 THEN Exp4(x[1]) ELSE -1 IN
         Mx(x) > 400000 \/ ((ex = -1 \/ Near(y0, ex, 10 + ex \div 500)) /\ Ode(ICst, y, y, x))
    [] f = "div" -> Same(SMul(y, v), u, 4 * Mx(y))
    [] f = "recip" -> Same(SMul(y, u), ICst, 4 * Mx(y))
    [] f = "rad" -> Same(Over(STimes(u, 349), 20000), y, ONE \div 10)
    [] f = "deg" -> \A k \in 1..10 : Near(y[k], FM(572958, u[k]), 8 + Abs(u[k]) \div 2000)
    [] f = "wrap" -> Same([u EXCEPT ![1] = 0], [y EXCEPT ![1] = 0], 0) /\ Abs(y0) <= 31417 /\ (Near(y0, Wrap(u0), 12) \/ (Near(Abs(y0), 31416, 12) /\ Near(Abs(Wrap(u0)), 31416, 12)))
    [] f = "floor" -> y = Cst((u0 \div ONE) * ONE)
    [] f = "ceil" -> y = Cst(-((-u0) \div ONE) * ONE)
    [] f = "round" -> y = Cst(Sgn(u0) * ((Abs(u0) + 5000) \div ONE) * ONE)
    [] f = "trunc" -> y = Cst(Sgn(u0) * (Abs(u0) \div ONE) * ONE)
    [] OTHER -> Assert(FALSE, f)
Funcs == {"sqrt", "cbrt", "sin", "cos", "tan", "exp", "expm1", "log", "ln_1p", "log2", "log10", "atan", "asin", "acos", "sinh", "cosh", "tanh", "atan2",
          "hypot", "powf", "div", "recip", "rad", "deg", "wrap", "floor", "ceil", "round", "trunc"}
FuncOf(op) == CHOOSE f \in Funcs : op = "f." \o f
Scaled(q) == LET f(k) == 2500 * q[k] IN Tuple(f)
(* ---- value channels at far inputs: where they are documented to differ from plain ------ *)
(* positions in the two lists of inputs: 0 zero, 1 minus zero; odd ones negative             *)
Special(f, x, y) ==
  \/ f = 35 /\ x \in {0, 1}                                   \* sign of a zero: zero, not one
  \/ f = 19 /\ (x \in {0, 1} \/ x % 2 = 1)                    \* powf: positive bases only
  \/ f = 39 /\ y \in {0, 1}                                   \* the guarded division of and by zeros
  \/ (f = 21 /\ x \in {0, 1}) \/ (f = 38 /\ x \in 0..3)                           \* reciprocals of zeros: which infinity
(* ------------------------------------------------------------------------------------- *)
Init == st = [k \in 1..4 |-> Cst(0)] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Set(s, i, c) == Ret([s EXCEPT ![i + 1] = c], "ok", Show(c))
Apply(s, op, a, w) ==
  CASE op = "load" -> Set(s, a[1], SubSeq(a, 2, 11))
    [] op = "var" -> Set(s, a[1], [k \in 1..10 |-> IF k = 1 THEN a[2] ELSE IF k \in {2, 6} THEN 1 ELSE 0])
    [] op = "fix" -> Set(s, a[1], Cst(a[2]))
    [] op = "const" -> Set(s, a[1], Cst(IF a[2] < 7 THEN Consts[a[2] + 1] ELSE CASE a[2] = 11 -> 2 * a[3] [] a[2] = 12 -> 4 [] a[2] = 13 -> 30 [] OTHER -> a[3]))
    [] op = "cmp" -> LET x == s[a[1] + 1][1] y == s[a[2] + 1][1] IN Ret(s, "ok", Flat([k \in 1..6 |-> <<Sgn(x - y), B(x = y)>>]))
    [] op = "primal" -> Ret(s, "ok", Rep(12, s[a[1] + 1][1]))
    [] op = "derivs" -> LET x == s[a[1] + 1] IN Ret(s, "ok", [k \in 1..11 |-> IF k <= 5 THEN Fact[k] * x[k] ELSE IF k <= 10 THEN x[k - 5] ELSE x[1]])
    [] op = "class" -> LET x == a[1] IN Ret(s, "ok", Flat([k \in 1..6 |-> <<B(x = NAN), B(Finite(x)), B(x = INF \/ x = NINF)>>]))
    [] op = "plain" -> LET good == [k \in 1..5 |-> 1] IN IF Special(a[1], a[2], a[3]) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", good)
    [] \E f \in Funcs : op = "f." \o f ->
         LET f == FuncOf(op) u == Scaled(SubSeq(a, 1, 10)) v == Scaled(SubSeq(a, 11, 20)) y == Last10(w.v) IN
         IF w.r = "ok" /\ Len(w.v) = 26 /\ (\A k \in 1..26 : Finite(w.v[k]) /\ w.v[k] # OFF) /\ Agree(w.v) /\ (Large(y) \/ Func(f, u, v, y)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such result">>)
    [] OTHER -> Set(s, a[1], Ring(s, op, a))
Do(op, a, w) == \E n \in {Apply(st, op, a, w)} : st' = n.st /\ out' = [op |-> op, a |-> a, r |-> n.r, v |-> n.v]
(* ---- the product rule and its relatives, of the model itself --------------------------- *)
Small(c) == Mx(c) <= 200
Leibniz == LET x == st[1] y == st[2] z == st[3] IN (Small(x) /\ Small(y) /\ Small(z)) =>
  /\ LET d == D1(ZMul(x, y)) e == SAdd(ZMul(D1(x), y), ZMul(x, D1(y))) IN \A k \in 1..10 : Pi(k) = 4 \/ d[k] = e[k]
  /\ LET d == D2(ZMul(x, y)) e == SAdd(ZMul(D2(x), y), ZMul(x, D2(y))) IN \A k \in 1..5 : d[k] = e[k]
  /\ ZMul(x, y) = ZMul(y, x)
  /\ ZMul(x, SAdd(y, z)) = SAdd(ZMul(x, y), ZMul(x, z))
Quotients == LET x == st[1] y == st[2] IN (Abs(y[1]) = 1 /\ Mx(y) <= 2 /\ Mx(x) <= 50) => ZMul(ZDiv(x, y), y) = x
=====================================================================================
