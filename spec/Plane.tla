----------------------------------- MODULE Plane -----------------------------------
(* SO(2) and SE(2): three registers of exact rational planar motions                   *)
(* <<c, s, n, x, y, d>>: rotation (c, s)/n with c c + s s = n n, translation (x, y)/d.   *)
EXTENDS Fixed
VARIABLES st, out
U == 100000
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Cut(c, s, n) == LET g == Gcd(Gcd(n, Abs(c)), Abs(s)) IN <<c \div g, s \div g, n \div g>>
El(r, t) == <<r[1], r[2], r[3], t[1], t[2], t[3]>>
IdE == <<1, 0, 1, 0, 0, 1>>
GMul(p, q) == El(Cut(p[1] * q[1] - p[2] * q[2], p[1] * q[2] + p[2] * q[1], p[3] * q[3]),
   Cut(p[4] * q[6] * p[3] + (p[1] * q[4] - p[2] * q[5]) * p[6], p[5] * q[6] * p[3] + (p[2] * q[4] + p[1] * q[5]) * p[6], p[6] * q[6] * p[3]))
GInv(p) == El(<<p[1], -p[2], p[3]>>, Cut(-(p[1] * p[4] + p[2] * p[5]), p[2] * p[4] - p[1] * p[5], p[3] * p[6]))
Sc(x, n, u) == (x \div n) * u + RDiv((x % n) * u, n)
PoseV(p) == <<Sc(p[1], p[3], U), Sc(p[2], p[3], U), Sc(p[4], p[6], U), Sc(p[5], p[6], U)>>
Near(w, v, e) == w.r = "ok" /\ Len(w.v) = Len(v) /\ \A k \in DOMAIN v : Finite(w.v[k]) /\ Abs(w.v[k] - v[k]) <= e
Obs(s, w, v, e) == IF Near(w, v, e) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", v)
Fin(s, x, i, w) == IF Near(w, PoseV(x), 2) THEN Ret([s EXCEPT ![i] = x], "ok", w.v) ELSE Ret([s EXCEPT ![i] = x], "ok", PoseV(x))
(* a 2x2 matrix over den; the rigid motion's third column and bottom row                *)
Accept(den, m) == m[1] = m[4] /\ m[2] = -m[3] /\ m[1] * m[1] + m[3] * m[3] = den * den
Apply(s, op, a, w) ==
  CASE op = "mat" -> IF AllFinite(a) /\ Accept(a[2], SubSeq(a, 3, 6)) THEN Obs(s, w, <<Sc(a[3], a[2], U), Sc(a[5], a[2], U)>>, 2) ELSE Ret(s, "none", <<>>)
    \* <<register, den, 2x2, x, y, bottom row>>: loads the register when accepted
    [] op = "load" -> IF AllFinite(a) /\ Accept(a[2], SubSeq(a, 3, 6)) /\ SubSeq(a, 9, 11) = <<0, 0, a[2]>>
                      THEN Fin(s, El(Cut(a[3], a[5], a[2]), <<a[7], a[8], 1>>), a[1], w) ELSE Ret(s, "none", <<>>)
    [] op = "mul" -> Fin(s, GMul(s[a[2]], s[a[3]]), a[1], w)
    [] op = "inv" -> Fin(s, GInv(s[a[2]]), a[1], w)
    [] op = "act" -> LET p == s[a[1]] q == GMul(p, <<1, 0, 1, a[2], a[3], 1>>) r == GMul(El(p, <<0, 0, 1>>), <<1, 0, 1, a[2], a[3], 1>>) IN
                     Obs(s, w, <<Sc(q[4], q[6], U), Sc(q[5], q[6], U), Sc(r[4], r[6], U), Sc(r[5], r[6], U)>>, 3)
    \* remade by matrix and by logarithm; rotation likewise; the heading reported
    [] op = "remake" -> LET p == s[a[1]] v == PoseV(p) IN
         IF /\ w.r = "ok" /\ Len(w.v) = 13 /\ AllFinite(w.v)
            /\ \A k \in 1..4 : Abs(w.v[k] - v[k]) <= 2 /\ Abs(w.v[4 + k] - v[k]) <= 4
            /\ \A k \in 1..2 : Abs(w.v[8 + k] - v[k]) <= 2 /\ Abs(w.v[10 + k] - v[k]) <= 2
            /\ w.v[13] \in -PI4..PI4 /\ Abs(Cos4(w.v[13]) * 10 - v[1]) <= 30 /\ Abs(Sin4(w.v[13]) * 10 - v[2]) <= 30
         THEN Ret(s, "ok", w.v) ELSE Ret(s, "not the same motion", v)
    [] op = "exp" -> LET p == Arc(100 * a[1], 100 * a[3]) q == Arc(100 * a[2], 100 * a[3]) IN
                     Obs(s, w, <<Cos4(100 * a[3]), Sin4(100 * a[3]), p[1] - q[2], p[2] + q[1]>>, 8 + (5 * (Abs(a[1]) + Abs(a[2]))) \div 100)
    [] op = "adj" -> LET p == s[a[1]] IN
                     Obs(s, w, <<Sc(p[1] * a[2] - p[2] * a[3], p[3], 10000) + Sc(p[5] * a[4], p[6], 10000), Sc(p[2] * a[2] + p[1] * a[3], p[3], 10000) - Sc(p[4] * a[4], p[6], 10000), 10000 * a[4]>>, 4)
    [] op = "hat" -> Ret(s, "ok", <<0, -a[3], a[1], a[3], 0, a[2], 0, 0, 0, a[1], a[2], a[3], 0, -a[3], a[3], 0, a[3]>>)
    [] op = "conj" -> Ret(s, "ok", <<0, 0>>)
    [] op = "jac" -> Ret(s, "ok", Rep(5, 0))
    [] op = "interp" -> Ret(s, "ok", Rep(7, 0))
Init == st = <<IdE, IdE, IdE>> /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
-----------------------------------------------------------------------------------
Rotations == \A i \in 1..3 : LET p == st[i] IN p[1] * p[1] + p[2] * p[2] = p[3] * p[3] /\ p[3] > 0 /\ p[6] > 0
Inverses == \A i \in 1..3 : st[i][3] * st[i][6] <= 1500 => GMul(st[i], GInv(st[i])) = IdE /\ GMul(GInv(st[i]), st[i]) = IdE
Small == st[1][3] * st[2][3] * st[3][3] <= 700 /\ st[1][6] * st[2][6] * st[3][6] <= 100
Associative == Small => GMul(GMul(st[1], st[2]), st[3]) = GMul(st[1], GMul(st[2], st[3]))
===================================================================================
