------------------------------------ MODULE Odo ------------------------------------
(* Differential drive, wheel odometry, the unicycle and pure pursuit. Wheel radius and *)
(* wheelbase are 1/64 m; the wheel maps are exact on integers, poses ten-thousandths.   *)
EXTENDS Fixed
VARIABLES st, out
VX3(x) == <<100 * x[1], 100 * x[2], 100 * x[3]>>
Bad(x) == ~Finite(x)
Drive(r, l) == IF Bad(r) \/ Bad(l) THEN {"NonFinite"} ELSE {}
New(s, a, w) == LET wrong == Drive(a[1], a[2]) \cup (IF a[1] <= 0 \/ a[2] <= 0 THEN {"NonPositiveParameter"} ELSE {}) IN
   IF wrong # {} THEN Ret(s, IF w.r \in wrong THEN w.r ELSE "should be refused", <<>>) ELSE Ret([s EXCEPT !.r = a[1], !.l = a[2]], "ok", <<a[1], a[2]>>)
(* wheels 1/8 -> body: linear in 1/1024, angular in 1/(8 l)                             *)
Body(s, lw, rw) == <<s.r * (lw + rw), s.r * (rw - lw)>>
(* body 1/64 -> wheels in 1/(128 r)                                                     *)
Wheels(s, v, o) == <<128 * v - o * s.l, 128 * v + o * s.l>>
Near(p, q, e) == Abs(p[1] - q[1]) <= e /\ Abs(p[2] - q[2]) <= e /\ Abs(Wrap(p[3] - q[3])) <= 8
(* one pose per way of asking, all the same                                              *)
Same3(v) == LET P(i) == SubSeq(v, 3 * i - 2, 3 * i) IN \A i \in 2..(Len(v) \div 3) : Near(P(1), P(i), 2)
Step(s, d, o, n, w) == LET p == PMul(s.at, Arc(d, o)) e == 8 + (3 * Abs(d)) \div ONE IN
   IF w.r = "ok" /\ Len(w.v) = 3 * n /\ AllFinite(w.v) /\ Same3(w.v) /\ Near(w.v, p, e) /\ w.v[3] \in -PI4..PI4
   THEN Ret([s EXCEPT !.at = SubSeq(w.v, 1, 3)], "ok", w.v) ELSE Ret([s EXCEPT !.at = p], "not along the arc", p)
Uni(a, w) == LET c == FMul(100 * a[1], Cos4(100 * a[3])) n == FMul(100 * a[1], Sin4(100 * a[3])) e == 4 + Abs(a[1]) \div 50 IN
   IF w.r = "ok" /\ Len(w.v) = 3 /\ Abs(w.v[1] - c) <= e /\ Abs(w.v[2] - n) <= e /\ w.v[3] = 100 * a[2] THEN w.v ELSE <<c, n, 100 * a[2]>>
Pursue(s, a, w) ==
  LET wrong == (IF Bad(a[3]) \/ a[3] <= 0 THEN {"NonPositiveLookaheadDistance"} ELSE {}) \cup (IF Bad(a[1]) \/ Bad(a[2]) THEN {"NonFinite"} ELSE {})
      dx == 100 * a[1] - s.at[1] dy == 100 * a[2] - s.at[2] lat == FMul(dy, Cos4(s.at[3])) - FMul(dx, Sin4(s.at[3]))
      big == MaxOf(Abs(dx), Abs(dy))
  IN IF wrong # {} THEN Ret(s, IF w.r \in wrong THEN w.r ELSE "should be refused", <<>>)
     \* observed: curvature times the distance squared; then the twist at speed a[4]/8: v and omega
     ELSE IF w.r = "ok" /\ Len(w.v) = 3 /\ Abs(w.v[1] - 2 * lat) <= 8 + big \div 2000 /\ w.v[2] = a[4] /\ w.v[3] = 1 THEN Ret(s, "ok", w.v) ELSE Ret(s, "not the pursuit circle", <<2 * lat, a[4], 1>>)
Apply(s, op, a, w) ==
  CASE op = "new"   -> New(s, a, w)
    [] op = "set"   -> Ret([s EXCEPT !.at = VX3(a)], "ok", <<>>)
    \* velocities and arcs share the wheel map; the other way; and both ways round
    [] op = "body"  -> LET x == Body(s, a[1], a[2]) IN Ret(s, "ok", x \o x)
    [] op = "wheels" -> LET x == Wheels(s, a[1], a[2]) IN Ret(s, "ok", x \o x)
    [] op = "round" -> Ret(s, "ok", <<a[1], a[2], a[1], a[2], a[3], a[4], a[3], a[4]>>)
    [] op = "travel" -> Ret(s, "ok", <<a[1], a[2], a[1] * s.r, a[2] * s.r>>)
    \* what a planar velocity keeps and loses; a twist held for a time
    [] op = "twist" -> Ret(s, "ok", <<a[1], a[3], a[2], a[1], 0, a[3], a[1] * a[4], a[3] * a[4]>>)
    [] op = "arc"   -> Step(s, 100 * a[1], 100 * a[2], 3, w)
    \* by wheel rotations in 1/8 rad
    [] op = "roll"  -> Step(s, RDiv(s.r * (a[1] + a[2]) * 625, 64), RDiv(s.r * (a[2] - a[1]) * 1250, s.l), 1, w)
    \* in a[3] equal pieces, and by the unicycle equation of motion
    [] op = "split" -> LET x == Step(s, 100 * a[1], 100 * a[2], 2, [w EXCEPT !.v = SubSeq(w.v, 1, Len(w.v) - 1)]) IN
                       IF x.r = "ok" /\ w.v[Len(w.v)] = 1 THEN Ret(x.st, "ok", w.v) ELSE Ret(x.st, "pieces differ from the arc", x.v)
    [] op = "flow"  -> Step(s, 100 * a[1], 100 * a[2], 1, w)
    \* out along arcs and back along them reversed
    [] op = "back"  -> Ret(s, "ok", <<1>>)
    [] op = "uni"   -> LET x == Uni(a, w) IN Ret(s, "ok", x)
    [] op = "pursue" -> Pursue(s, a, w)
    \* toward the end of an arc at its chord's distance: the arc's own curvature, turn over length
    [] op = "chase" -> Ret(s, "ok", <<a[2]>>)
Init == st = [r |-> 8, l |-> 32, at |-> <<0, 0, 0>>] /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
-----------------------------------------------------------------------------------
Legal == st.r > 0 /\ st.l > 0
(* the two wheel maps undo each other, and arcs compose                                    *)
Inverse == out.op = "body" => LET x == out.v IN x[1] - x[2] = 2 * st.r * out.a[1] /\ x[1] + x[2] = 2 * st.r * out.a[2]
Halves == out.op = "split" => LET d == 100 * out.a[1] o == 100 * out.a[2] IN Near(PMul(Arc(d, o), Arc(d, o)), Arc(2 * d, 2 * o), 12 + (4 * Abs(d)) \div ONE)
There == out.op = "arc" => LET d == 100 * out.a[1] o == 100 * out.a[2] IN Near(PMul(Arc(d, o), Arc(-d, -o)), <<0, 0, 0>>, 8 + (4 * Abs(d)) \div ONE)
===================================================================================
