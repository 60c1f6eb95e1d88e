----------------------------------- MODULE Body ------------------------------------
(* Spatial algebra and the free rigid body on whole numbers. An inertia is what it is   *)
(* for a cloud of point masses: total mass m, first moment h = sum m p, and second       *)
(* moment I = sum m (p.p 1 - p p'), all about the frame origin, and these three just add. *)
(* Accelerations are compared in thousandths through the balance equations themselves.   *)
EXTENDS Rot
VARIABLES st, out
P1(a) == SubSeq(a, 1, 3)
P2(a) == SubSeq(a, 4, 6)
M3(a, b) == TLCEval([k \in 1..9 |-> a[k] + b[k]])
MX(a, k) == TLCEval([i \in 1..9 |-> k * a[i]])
(* ---- twists <<v, w>> and wrenches <<f, t>> ------------------------------------------- *)
TCross(a, b) == VA(Cross(P2(a), P1(b)), Cross(P1(a), P2(b))) \o Cross(P2(a), P2(b))
WCross(a, b) == Cross(P2(a), P1(b)) \o VA(Cross(P2(a), P2(b)), Cross(P1(a), P1(b)))
Power(a, b) == Dot(a, b)
ActT(p, a) == LET w == MV(p[1], P2(a)) IN VA(MV(p[1], P1(a)), Cross(p[2], w)) \o w
ActW(p, b) == LET f == MV(p[1], P1(b)) IN f \o VA(MV(p[1], P2(b)), Cross(p[2], f))
Pose(q, t) == <<QMat(q), t>>
(* ---- inertia as moments ----------------------------------------------------------------- *)
Spread(p) == M3(MX(Id3, Dot(p, p)), MX(Outer(p, p), -1))
(* a body given by mass, balance point and inertia about it *)
Given(m, c, i) == <<m, VX(c, m), M3(i, MX(Spread(c), m))>>
Join(x, y) == <<x[1] + y[1], VA(x[2], y[2]), M3(x[3], y[3])>>
Shift(x, t) == LET h == x[2] IN      \* every point moved by t
   <<x[1], VA(h, VX(t, x[1])), M3(M3(x[3], MX(Id3, 2 * Dot(h, t))), M3(MX(M3(Outer(h, t), Outer(t, h)), -1), MX(Spread(t), x[1])))>>
Move(p, x) == Shift(<<x[1], MV(p[1], x[2]), MM(MM(p[1], x[3]), Tr(p[1]))>>, p[2])
(* m times the inertia about the balance point *)
Central(x) == M3(MX(x[3], x[1]), MX(Spread(x[2]), -1))
About(x, p) == Shift(x, VX(p, -1))[3]
Momentum(x, a) == VA(VX(P1(a), x[1]), Cross(P2(a), x[2])) \o VA(MV(x[3], P2(a)), Cross(x[2], P1(a)))
Matrix6(x) == LET k == Hat(x[2]) r(i) == SubSeq(MX(Id3, x[1]), 3 * i - 2, 3 * i) \o SubSeq(MX(k, -1), 3 * i - 2, 3 * i)
                  s(i) == SubSeq(k, 3 * i - 2, 3 * i) \o SubSeq(x[3], 3 * i - 2, 3 * i) IN r(1) \o r(2) \o r(3) \o s(1) \o s(2) \o s(3)
PosDef(c) == c[1] > 0 /\ c[1] * c[5] - c[2] * c[4] > 0 /\ Det3(c) > 0
(* ---- Newton and Euler -------------------------------------------------------------------- *)
K == 1000
Size(q) == Sum([k \in DOMAIN q |-> Abs(q[k])])
(* b: body; r: orientation; o: turn rate; l: wrench; a: observed accelerations in 1/K *)
Balanced(b, r, o, l, a) ==
  LET x == b.i m == x[1] h == x[2] c == Central(x) al == P2(a) lin == P1(a)
      rhs == VS(VS(VX(P2(l), m), Cross(h, P1(l))), Cross(o, MV(c, o)))
      lhs == MV(c, al)
      want == VS(VX(VA(MV(r, P1(l)), VX(b.g, m)), K), MV(r, VA(Cross(al, h), VX(Cross(o, Cross(o, h)), K)))) IN
   /\ Len(a) = 6 /\ AllFinite(a) /\ \A k \in 1..6 : a[k] # OFF
   /\ \A k \in 1..3 : Abs(lhs[k] - K * rhs[k]) <= Size(SubSeq(c, 3 * k - 2, 3 * k)) + 4
   /\ \A k \in 1..3 : Abs(m * lin[k] - want[k]) <= m + Size(h) + 4
(* ---- the machine --------------------------------------------------------------------------- *)
NoBody == [i |-> <<>>, g |-> <<>>]
Init == st = [i |-> <<>>, b |-> NoBody] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Same(s, v) == Ret(s, "ok", v)
Make(s, m, c, i) ==
  IF ~AllFinite(<<m>> \o c \o i) THEN Ret(s, "NonFinite", <<>>)
  ELSE IF m <= 0 THEN Ret(s, "NonPositiveMass", <<>>)
  ELSE IF Tr(i) # i THEN Ret(s, "NotSymmetric", <<>>)
  ELSE IF i[1] <= 0 \/ i[5] <= 0 \/ i[9] <= 0 THEN Ret(s, "NonPositiveInertia", <<>>)
  ELSE Ret([s EXCEPT !.i = Given(m, c, i)], "ok", <<>>)
Diag(d) == <<d[1], 0, 0, 0, d[2], 0, 0, 0, d[3]>>
Show(x) == <<x[1]>> \o x[2] \o Central(x)
(* whichever of the observed accelerations satisfy the balance are the observation *)
Accel(s, r, o, l, w, at) == IF w.r = "ok" /\ Balanced(s.b, r, o, l, SubSeq(w.v, at, at + 5)) THEN SubSeq(w.v, at, at + 5) ELSE <<OFF>>
Axis(k) == SubSeq(Id3, 3 * k - 2, 3 * k)
Quarter(k, n) == Turn(Axis(k), 3 * n)
(* two seconds of a body turning steadily about an axis of symmetry by n quarter turns a second *)
Step(s, x, q, v, k, n, f) == LET m == s.b.i[1] g == VX(s.b.g, m) r == QMat(q) IN
   VA(VX(x, m), VX(VA(VX(v, m), VA(MV(r, f), g)), 2)) \o MM(r, Quarter(k, 2 * n))
   \o VA(VX(v, m), VX(VA(MV(MM(r, Quarter(k, n)), f), g), 2)) \o VX(Axis(k), n)
(* left over from momentum in 1e-9 after one force-free step of 2^-10 s *)
Kept(s, o, w) == LET c == Central(s.b.i) z == Size(o) m == s.b.i[1] IN
   /\ w.r = "ok" /\ Len(w.v) = 2 /\ AllFinite(w.v)
   /\ w.v[1] <= 5 * z * z * z * z * (Size(s.b.i[2]) + 1) + 5
   /\ w.v[2] <= 5 * z * z * z * z * (Size(c) \div m + 1) + 5
Unit(q, v) == LET n == QNorm(q) IN TLCEval([i \in DOMAIN v |-> ExDiv(v[i], n)])
Apply(s, op, a, w) ==
  CASE op = "cross" -> LET x == SubSeq(a, 1, 6) y == SubSeq(a, 7, 12) IN Same(s, TCross(x, y) \o WCross(x, y) \o <<Power(x, y)>>)
    [] op = "linear" -> LET x == SubSeq(a, 1, 6) y == SubSeq(a, 7, 12) IN
         Same(s, [i \in 1..6 |-> x[i] + y[i]] \o [i \in 1..6 |-> x[i] - y[i]] \o [i \in 1..6 |-> -x[i]] \o [i \in 1..6 |-> a[13] * x[i]])
    [] op = "frame" -> LET p == Pose(SubSeq(a, 1, 4), SubSeq(a, 5, 7)) x == SubSeq(a, 8, 13) y == SubSeq(a, 14, 19) IN
         Same(s, ActT(p, x) \o ActW(p, y) \o ActT(Inv(p), x) \o ActW(Inv(p), y))
    [] op = "make" -> Make(s, a[1], SubSeq(a, 2, 4), SubSeq(a, 5, 13))
    [] op = "diag" -> Make(s, a[1], SubSeq(a, 2, 4), Diag(SubSeq(a, 5, 7)))
    [] op = "join" -> LET n == Make(s, a[1], SubSeq(a, 2, 4), SubSeq(a, 5, 13)) IN
         IF n.r = "ok" THEN Ret([s EXCEPT !.i = Join(s.i, n.st.i)], "ok", <<>>) ELSE n
    [] op = "move" -> Ret([s EXCEPT !.i = Move(Pose(SubSeq(a, 1, 4), SubSeq(a, 5, 7)), s.i)], "ok", <<>>)
    [] op = "unmove" -> Ret([s EXCEPT !.i = Move(Inv(Pose(SubSeq(a, 1, 4), SubSeq(a, 5, 7))), s.i)], "ok", <<>>)
    [] op = "show" -> Same(s, Show(s.i))
    [] op = "about" -> Same(s, About(s.i, a))
    [] op = "matrix" -> Same(s, Matrix6(s.i))
    [] op = "motion" -> LET p == Momentum(s.i, a) IN Same(s, p \o WCross(a, p) \o <<Dot(a, p)>>)
    [] op = "body" -> IF ~AllFinite(a) THEN Ret(s, "NonFinite", <<>>)
         ELSE IF ~PosDef(Central(s.i)) THEN Ret(s, "NonPositiveInertia", <<>>)
         ELSE Ret([s EXCEPT !.b = [i |-> s.i, g |-> a]], "ok", a \o Show(s.i))
    [] op = "accel" -> Same(s, Accel(s, QMat(SubSeq(a, 1, 4)), SubSeq(a, 5, 7), SubSeq(a, 8, 13), w, 1))
    [] op = "deriv" ->
         LET q == SubSeq(a, 4, 7) o == SubSeq(a, 11, 13) IN
         IF QNorm(q) = 0 THEN Same(s, Rep(13, 0))
         ELSE Same(s, SubSeq(a, 8, 10) \o QMul(q, <<0>> \o o) \o Accel(s, QMat(q), o, SubSeq(a, 14, 19), w, 8))
    [] op = "step" -> Same(s, Step(s, SubSeq(a, 1, 3), SubSeq(a, 4, 7), SubSeq(a, 8, 10), a[11], a[12], SubSeq(a, 13, 15)))
    [] op = "spin" -> IF Kept(s, SubSeq(a, 5, 7), w) THEN Same(s, w.v) ELSE Same(s, <<0, 0>>)
    [] op = "pack" -> LET q == SubSeq(a, 4, 7) IN
         IF QNorm(q) = 0 THEN Ret(s, "none", <<>>)
         ELSE Same(s, SubSeq(a, 1, 3) \o QMat(q) \o SubSeq(a, 8, 13) \o <<1>>)
    [] op = "turn" -> \* q, axis, quarter turns a second, steps, seconds a step
         IF ~Finite(a[8]) THEN Ret(s, "NonFinite", <<>>) ELSE IF a[8] <= 0 THEN Ret(s, "NonPositiveTimestep", <<>>)
         ELSE IF ~Finite(a[6]) /\ a[7] > 0 THEN Ret(s, "NonFinite", <<>>)
         ELSE Same(s, MM(QMat(SubSeq(a, 1, 4)), IF a[7] = 0 THEN Id3 ELSE Quarter(a[5], a[6] * a[7] * a[8])) \o [i \in 1..a[7] + 1 |-> 5 + (i - 1) * a[8]])
    [] op = "turn2" -> \* q, axis, rate and its change a second, both in quarter turns; one step of two seconds
         LET r == QMat(SubSeq(a, 1, 4)) IN Same(s, MM(r, Quarter(a[5], 2 * a[6])) \o MM(r, Quarter(a[5], 2 * (a[6] + a[7]))))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E n \in {Apply(st, op, a, w)} : st' = n.st /\ out' = [op |-> op, a |-> a, r |-> n.r, v |-> n.v]
(* ---- laws the specification itself obeys ------------------------------------------------------ *)
(* power does not depend on the frame, moving is a homomorphism of the cross products, and the two  *)
(* cross products are dual                                                                           *)
Frames == out.op = "frame" => LET a == out.a p == Pose(SubSeq(a, 1, 4), SubSeq(a, 5, 7)) x == SubSeq(a, 8, 13) y == SubSeq(a, 14, 19) IN
   /\ Power(ActT(p, x), ActW(p, y)) = Power(x, y) /\ ActT(Inv(p), ActT(p, x)) = x /\ ActW(Inv(p), ActW(p, y)) = y
   /\ ActT(p, TCross(x, y)) = TCross(ActT(p, x), ActT(p, y)) /\ ActW(p, WCross(x, y)) = WCross(ActT(p, x), ActW(p, y))
Crosses == out.op = "cross" => LET x == SubSeq(out.a, 1, 6) y == SubSeq(out.a, 7, 12) z == y \o <<>> IN
   /\ TCross(x, x) = Rep(6, 0) /\ TCross(x, y) = [i \in 1..6 |-> -TCross(y, x)[i]]
   /\ Power(TCross(x, y), y) = -Power(y, WCross(x, y)) /\ Power(x, WCross(x, y)) = 0
(* an inertia is positive, symmetric, satisfies the axis inequality of its moments, and its matrix is *)
(* the momentum map                                                                                    *)
Inertial == st.i # <<>> => st.i[1] > 0 /\ Tr(st.i[3]) = st.i[3] /\ Tr(Central(st.i)) = Central(st.i)
Momenta == out.op = "motion" => LET m == Matrix6(st.i) p == Momentum(st.i, out.a) IN \A k \in 1..6 : Dot(SubSeq(m, 6 * k - 5, 6 * k), out.a) = p[k]
====================================================================================
