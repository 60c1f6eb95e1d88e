----------------------------------- MODULE Group -----------------------------------
(* SO(3), SE(3) and quaternions: a machine with three registers holding rigid motions  *)
(* as exact rational matrices <<m, n, t, d>> (rotation m/n, translation t/d). Poses are  *)
(* observed in 1e-5, angles in 1e-4; inputs of exponentials and angles are hundredths.   *)
EXTENDS Rot, Fixed
VARIABLES st, out
U == 100000
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
RECURSIVE GcdAll(_, _, _)
GcdAll(q, k, g) == IF k = 0 THEN g ELSE GcdAll(q, k - 1, Gcd(g, Abs(q[k])))
(* cancelled fractions *)
Frac(q, n) == LET g == GcdAll(q, Len(q), n) IN <<TLCEval([k \in DOMAIN q |-> q[k] \div g]), n \div g>>
Elem(rot, tr) == rot \o tr
MatQ(q) == LET w == q[1] v == <<q[2], q[3], q[4]>> n == QNorm(q) o == Outer(v, v) h == Hat(v) IN
   Frac(TLCEval([k \in 1..9 |-> (w * w - Dot(v, v)) * Id3[k] + 2 * o[k] + 2 * w * h[k]]), n)
Load(q, t) == Elem(MatQ(q), <<t, 1>>)
GMul(x, y) == Elem(Frac(MM(x[1], y[1]), x[2] * y[2]),
   Frac(VA(VX(x[3], y[4] * x[2]), VX(MV(x[1], y[3]), x[4])), x[4] * y[4] * x[2]))
GInv(x) == Elem(<<Tr(x[1]), x[2]>>, Frac(VX(MV(Tr(x[1]), x[3]), -1), x[4] * x[2]))
IdE == <<Id3, 1, Z3, 1>>
(* observed forms *)
Sc(q, n, u) == TLCEval([k \in DOMAIN q |-> (q[k] \div n) * u + RDiv((q[k] % n) * u, n)])
RotV(x) == Sc(x[1], x[2], U)
PoseV(x) == RotV(x) \o Sc(x[3], x[4], U)
Near(w, v, e) == w.r = "ok" /\ Len(w.v) = Len(v) /\ \A k \in DOMAIN v : Finite(w.v[k]) /\ Abs(w.v[k] - v[k]) <= e
Obs(s, w, v, e) == IF Near(w, v, e) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", v)
ActV(x, p) == LET a == Frac(MV(x[1], p), x[2]) b == Frac(MV(Tr(x[1]), p), x[2]) IN
   Sc(VA(VX(a[1], x[4]), VX(x[3], a[2])), a[2] * x[4], U) \o Sc(a[1], a[2], U) \o Sc(b[1], b[2], U)
(* ---- angles: Rodrigues and friends in 1e-4, from angle h (1e-4) about unit u (1e-4) -- *)
TurnF(u, h) == LET c == Cos4(h) s == Sin4(h) o == <<FMul(u[1], u[1]), FMul(u[1], u[2]), FMul(u[1], u[3]), FMul(u[2], u[1]), FMul(u[2], u[2]), FMul(u[2], u[3]), FMul(u[3], u[1]), FMul(u[3], u[2]), FMul(u[3], u[3])>> k == Hat(u) IN
   TLCEval([i \in 1..9 |-> c * Id3[i] + FMul(k[i], s) + FMul(o[i], ONE - c)])
Len4(v) == Root(Dot(v, v))                                        \* |v| <= 46340
UnitF(v, l) == TLCEval([i \in 1..3 |-> RDiv(v[i] * ONE, l)])
Id9 == TLCEval([i \in 1..9 |-> ONE * Id3[i]])
VA9(x, y) == TLCEval([i \in 1..9 |-> x[i] + y[i]])
ExpR(f) == LET h == Len4(f) IN IF h < 20 THEN VA9(Id9, Hat(f)) ELSE TurnF(UnitF(f, h), h)
FCross(x, y) == <<FMul(y[3], x[2]) - FMul(y[2], x[3]), FMul(y[1], x[3]) - FMul(y[3], x[1]), FMul(y[2], x[1]) - FMul(y[1], x[2])>>
(* the point reached by unit time of twist (v, f): v + c1 f x v + c2 f x (f x v)           *)
ExpT(v, f) == LET h == Len4(f) q == FMul(h, h)
      c1 == IF h <= 5000 THEN 5000 - RDiv(q, 24) ELSE RDiv((ONE - Cos4(h)) * ONE, q)
      c2 == IF h <= 10000 THEN 1667 - RDiv(q, 120) + RDiv(FMul(q, q), 5040) ELSE RDiv(RDiv((h - Sin4(h)) * ONE, q) * ONE, h)
      x == FCross(f, v) y == FCross(f, x) IN
   <<v[1] + FMul(x[1], c1) + FMul(y[1], c2), v[2] + FMul(x[2], c1) + FMul(y[2], c2), v[3] + FMul(x[3], c1) + FMul(y[3], c2)>>
H2F(x) == <<100 * x[1], 100 * x[2], 100 * x[3]>>
EulerF(r, p, y) == LET F(u, h) == TurnF(u, h)
      MF(a, b) == TLCEval([i \in 1..9 |-> LET row == (i - 1) \div 3 c == ((i - 1) % 3) + 1 IN FMul(a[3 * row + 1], b[c]) + FMul(a[3 * row + 2], b[3 + c]) + FMul(a[3 * row + 3], b[6 + c])]) IN
   MF(MF(F(<<0, 0, ONE>>, y), F(<<0, ONE, 0>>, p)), F(<<ONE, 0, 0>>, r))
(* ---- operations ----------------------------------------------------------------------- *)
Fin(s, x, i, w) == LET v == PoseV(x) IN IF Near(w, v, 2) THEN Ret([s EXCEPT ![i] = x], "ok", w.v) ELSE Ret([s EXCEPT ![i] = x], "ok", v)
(* the same motion remade six ways, and what the coordinates look like on the way          *)
Remake(s, x, w) ==
  LET n == PoseV(x) r == RotV(x)
      way(k) == SubSeq(w.v, 12 * k - 11, 12 * k) rw(k) == SubSeq(w.v, 16 + 9 * k, 24 + 9 * k)
      near(a, b, e) == Len(a) = Len(b) /\ \A k \in DOMAIN b : Abs(a[k] - b[k]) <= e
      f == SubSeq(w.v, 61, 63) ax == SubSeq(w.v, 64, 66) an == w.v[67] eu == SubSeq(w.v, 68, 70) IN
  IF /\ w.r = "ok" /\ Len(w.v) = 70 /\ AllFinite(w.v)
     /\ near(way(1), n, 2) /\ near(way(2), n, 4)                       \* matrix; logarithm
     /\ near(rw(1), r, 3) /\ near(rw(2), r, 3) /\ near(rw(3), r, 3) /\ near(rw(4), r, 3)
     /\ Len4(f) <= PI4 + 1 /\ an \in 0..PI4 /\ Abs(Len4(ax) - ONE) <= 2
     /\ \A k \in 1..3 : Abs(FMul(ax[k], an) - f[k]) <= 4
     /\ Abs(eu[2]) <= 15708 /\ Abs(eu[1]) <= PI4 /\ Abs(eu[3]) <= TAU
  THEN Ret(s, "ok", w.v) ELSE Ret(s, "not the same rotation", r)
VDx(k) == <<k, 0, 0, 0, k, 0, 0, 0, k>>
Accept(a) == LET den == a[1] m == SubSeq(a, 2, 10) IN AllFinite(a) /\ MM(m, Tr(m)) = VDx(den * den) /\ Det3(m) = den * den * den
Dot3(x, y, z) == x * x + y * y + z * z
Angle(x, y) == LET m == Frac(MM(Tr(x[1]), y[1]), x[2] * y[2]) n == m[2] a == m[1] IN
   <<RDiv((a[1] + a[5] + a[9] - n) * 5000, n), Root(Dot3(RDiv((a[8] - a[6]) * 5000, n), RDiv((a[3] - a[7]) * 5000, n), RDiv((a[4] - a[2]) * 5000, n)))>>
(* signed axis permutations of a vector *)
Perm(v, k) == CASE k = 0 -> v [] k = 1 -> <<v[2], v[3], v[1]>> [] k = 2 -> <<-v[2], v[1], v[3]>> [] k = 3 -> <<-v[1], -v[2], -v[3]>> [] k = 4 -> <<-v[1], v[2], v[3]>> [] k = 5 -> <<v[3], -v[2], -v[1]>>
Adj(x, u) == LET v == SubSeq(u, 1, 3) o == SubSeq(u, 4, 6)
      rv == Frac(MV(x[1], v), x[2]) ro == Frac(MV(x[1], o), x[2])
      l == Frac(VA(VX(rv[1], x[4] * ro[2]), VX(Cross(x[3], ro[1]), rv[2])), rv[2] * ro[2] * x[4]) IN
   Sc(l[1], l[2], 10000) \o Sc(ro[1], ro[2], 10000)
Apply(s, op, a, w) ==
  CASE op = "load" -> IF SubSeq(a, 2, 5) = <<0, 0, 0, 0>> \/ ~AllFinite(a) THEN Ret(s, "none", <<>>) ELSE Fin(s, Load(SubSeq(a, 2, 5), SubSeq(a, 6, 8)), a[1], w)
    [] op = "mul"  -> Fin(s, GMul(s[a[2]], s[a[3]]), a[1], w)
    [] op = "inv"  -> Fin(s, GInv(s[a[2]]), a[1], w)
    [] op = "act"  -> Obs(s, w, ActV(s[a[1]], SubSeq(a, 2, 4)), 4)
    [] op = "remake" -> Remake(s, s[a[1]], w)
    \* is this matrix (over a[1]) a rotation; with a bottom row and a translation, a rigid motion
    [] op = "mat"  -> IF Accept(a) THEN Obs(s, w, Sc(SubSeq(a, 2, 10), a[1], U), 2) ELSE Ret(s, "none", <<>>)
    [] op = "mat4" -> IF Accept(SubSeq(a, 1, 10)) /\ AllFinite(a) /\ SubSeq(a, 14, 17) = <<0, 0, 0, a[1]>> THEN Obs(s, w, Sc(SubSeq(a, 2, 10) \o SubSeq(a, 11, 13), a[1], U), 2) ELSE Ret(s, "none", <<>>)
    [] op = "exp"  -> LET v == H2F(SubSeq(a, 1, 3)) f == H2F(SubSeq(a, 4, 6)) IN Obs(s, w, ExpR(f) \o ExpT(v, f), 8 + (5 * (Abs(v[1]) + Abs(v[2]) + Abs(v[3]))) \div ONE)
    [] op = "euler" -> Obs(s, w, EulerF(100 * a[1], 100 * a[2], 100 * a[3]), 6)
    [] op = "axis" -> LET x == SubSeq(a, 1, 3) l == Root(Dot(x, x) * 100000000) IN
                      IF x = Z3 THEN Obs(s, w, Id9, 0) ELSE Obs(s, w, TurnF(TLCEval([k \in 1..3 |-> RDiv(x[k] * 100000000, l)]), 100 * a[4]), 6)
    \* plain quaternion algebra
    [] op = "quat" -> LET p == SubSeq(a, 1, 4) q == SubSeq(a, 5, 8) k == a[9] IN
                      Ret(s, "ok", QMul(p, q) \o [i \in 1..4 |-> p[i] + q[i]] \o [i \in 1..4 |-> p[i] - q[i]] \o [i \in 1..4 |-> -p[i]] \o <<p[1], -p[2], -p[3], -p[4]>>
                                  \o <<Dot(p, q), Dot(p, p)>> \o [i \in 1..4 |-> k * p[i]] \o <<p[1], -p[2], -p[3], -p[4]>> \o <<p[1], p[2], p[3], p[4]>>)
    \* logarithm of the exponential of q/100 (vector part shorter than pi)
    [] op = "qlog" -> Ret(s, "ok", a)
    [] op = "two"  -> LET x == SubSeq(a, 1, 3) y == Perm(x, a[4]) IN
                      IF ~AllFinite(a) \/ x = Z3 THEN Obs(s, w, RotV(IdE), 0) ELSE
                      \* carries x on y, keeps what is perpendicular to both, and is a rotation
                      LET c == Cross(x, y) IN Ret(s, "ok", y \o c \o <<1, 1>>)
    [] op = "pairs" -> LET x == s[a[1]] p == SubSeq(a, 2, 4) q == SubSeq(a, 5, 7) IN
                      IF ~AllFinite(a) \/ Cross(p, q) = Z3 THEN Ret(s, "none", <<>>) ELSE Obs(s, w, RotV(x), 3)
    [] op = "adj"  -> LET v == Adj(s[a[1]], SubSeq(a, 2, 7)) IN Obs(s, w, v \o v, 4)
    \* differences that must vanish: X exp(u) X^-1 against exp(Ad_X u); Jacobian identities; interpolation laws
    [] op = "conj" -> Ret(s, "ok", <<0, 0>>)
    [] op = "jac"  -> Ret(s, "ok", Rep(10, 0))
    [] op = "interp" -> Ret(s, "ok", Rep(7, 0))
    [] op = "angle" -> LET cs == Angle(s[a[1]], s[a[2]]) IN
                      IF w.r = "ok" /\ Len(w.v) = 1 /\ w.v[1] \in 0..PI4 + 1 /\ Abs(Cos4(w.v[1]) - cs[1]) <= 4 /\ Abs(Sin4(w.v[1]) - cs[2]) <= 4 THEN Ret(s, "ok", w.v) ELSE Ret(s, "wrong angle", cs)
Init == st = <<IdE, IdE, IdE>> /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
-----------------------------------------------------------------------------------
(* registers hold rotations whatever was computed, and the group laws hold between them    *)
Rotations == \A i \in 1..3 : LET x == st[i] IN MM(x[1], Tr(x[1])) = VDx(x[2] * x[2]) /\ x[2] > 0 /\ x[4] > 0
Inverses == \A i \in 1..3 : st[i][2] * st[i][4] <= 1500 => GMul(st[i], GInv(st[i])) = IdE /\ GMul(GInv(st[i]), st[i]) = IdE
Small == st[1][2] * st[2][2] * st[3][2] <= 700 /\ st[1][4] * st[2][4] * st[3][4] <= 100
Associative == Small => GMul(GMul(st[1], st[2]), st[3]) = GMul(st[1], GMul(st[2], st[3]))
===================================================================================
