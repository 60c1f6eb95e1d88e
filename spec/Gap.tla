---------------------------------- MODULE Gap ----------------------------------
(* FollowTheGap (control/follow_the_gap.rs) and ScanGeometry                    *)
(* (mapping/scan_geometry.rs). Fields of view in 1/16 rad, angles in 2^-18 rad, *)
(* ranges, widths and speeds in 1/8, stopping and clear distance in 1/16,       *)
(* gains in 1/2.                                                                *)
EXTENDS Lattice, Trig
VARIABLES st, out
None == [k |-> "none"]
A == 16384                      \* angle units in one fov unit
TwoPi == 100                    \* last whole 1/16 rad inside a turn
Tol == 3                        \* angle units
(* direction of beam i (from 0) of n across fov: right to left                 *)
Angle(s, i) == -(s.fov * (A \div 2)) + ExDiv(s.fov * A, s.n - 1) * i

Follow(a) ==  \* n, fov, maximum range, chassis width, free threshold, cruise speed
  IF a[1] < 2 THEN Ret(None, "InvalidBeamCount", <<>>)
  ELSE IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[2] <= 0 \/ a[2] > TwoPi THEN Ret(None, "InvalidFieldOfView", <<>>)
  ELSE IF a[3] <= 0 \/ a[5] <= 0 \/ a[5] > a[3] THEN Ret(None, "NonPositiveRange", <<>>)
  ELSE IF a[4] <= 0 \/ a[4] >= 2 * a[3] THEN Ret(None, "NonPositiveChassisWidth", <<>>)
  ELSE IF a[6] <= 0 THEN Ret(None, "NonPositiveSpeed", <<>>)
  ELSE Ret([k |-> "gap", n |-> a[1], fov |-> a[2], max |-> a[3], ch |-> a[4], thr |-> a[5], cruise |-> a[6],
            gain |-> 3, bias |-> 1, stop |-> a[4], clear |-> 2 * a[3], front |-> a[2] * (A \div 4)], "ok", <<>>)
Gain(s, g) == IF ~Finite(g) THEN Ret(s, "NonFinite", <<>>) ELSE IF g <= 0 THEN Ret(s, "NonPositiveSpeed", <<>>)
              ELSE Ret([s EXCEPT !.gain = g], "ok", <<>>)
Bias(s, g) == IF ~Finite(g) THEN Ret(s, "NonFinite", <<>>) ELSE IF g < 0 THEN Ret(s, "NegativeGoalBias", <<>>)
              ELSE Ret([s EXCEPT !.bias = g], "ok", <<>>)
Scaling(s, a) == IF ~AllFinite(a) THEN Ret(s, "NonFinite", <<>>)
                 ELSE IF a[1] < 0 \/ a[1] >= a[2] THEN Ret(s, "InvalidSpeedScaling", <<>>)
                 ELSE Ret([s EXCEPT !.stop = a[1], !.clear = a[2]], "ok", <<>>)
Frontal(s, f) == IF ~Finite(f) THEN Ret(s, "NonFinite", <<>>)
                 ELSE IF f <= 0 \/ 2 * f > s.fov * A THEN Ret(s, "InvalidFieldOfView", <<>>)
                 ELSE Ret([s EXCEPT !.front = f], "ok", <<>>)

(* ---- one scan ------------------------------------------------------------ *)
(* a reading that is not a positive number says nothing is there               *)
Read(s, x) == IF x = INF \/ x = NAN \/ x = NINF \/ x <= 0 THEN s.max ELSE MinOf(x, s.max)
Free(s, r, i) == r[i + 1] >= s.thr
(* maximal stretches of free beams, as <<first, last>>                         *)
Runs(s, r) == {p \in (0..s.n - 1) \X (0..s.n - 1) :
   /\ p[1] <= p[2]
   /\ \A i \in p[1]..p[2] : Free(s, r, i)
   /\ p[1] > 0 => ~Free(s, r, p[1] - 1)
   /\ p[2] < s.n - 1 => ~Free(s, r, p[2] + 1)}
Open(s, p) == p[1] = 0 \/ p[2] = s.n - 1
(* squared distance between the obstacles either side, minus the chassis's, in 1e-6/64 m2 *)
Spare(s, r, p) == LET x == r[p[1]] y == r[p[2] + 2] k == ExDiv(s.fov, s.n - 1) * (p[2] - p[1] + 2) IN
   (x * x + y * y - s.ch * s.ch) * 1000000 - 2 * x * y * Cos16[k + 1]
Slack(s, r, p) == 2 * r[p[1]] * r[p[2] + 2] + 400
(* f32 cannot resolve a tie of widths: either answer is allowed inside the slack *)
Fits(s, r, p) == Open(s, p) \/ Spare(s, r, p) >= Slack(s, r, p)
MayFit(s, r, p) == Open(s, p) \/ Spare(s, r, p) >= -Slack(s, r, p)
Inset(s, x) == AtanH[s.ch][x]
Low(s, r, p) == Angle(s, p[1]) + IF p[1] = 0 THEN 0 ELSE Inset(s, r[p[1]])
High(s, r, p) == Angle(s, p[2]) - IF p[2] = s.n - 1 THEN 0 ELSE Inset(s, r[p[2] + 2])
Middle(s, p) == (Angle(s, p[1]) + Angle(s, p[2])) \div 2
Aims(s, r, p, g) == LET lo == Low(s, r, p) hi == High(s, r, p) IN
   (IF lo > hi - Tol THEN {Middle(s, p)} ELSE {}) \cup (IF lo > hi + Tol THEN {} ELSE {MinOf(MaxOf(g, lo), hi)})
Score(s, r, p, g, aim) == 2 * MaxOf(High(s, r, p) - Low(s, r, p), 0) - s.bias * Abs(aim - g)      \* in 1/2
(* scores of both runs are exactly nothing but their pinned width: no rounding involved *)
Pinned(s, r, p) == s.bias = 0 /\ Low(s, r, p) > High(s, r, p) + Tol
Ahead(s, r) == SetMin({s.max} \cup {r[i + 1] : i \in {j \in 0..s.n - 1 : Abs(Angle(s, j)) <= s.front}})
Nearest(s, r) == SetMin({s.max} \cup {r[i] : i \in DOMAIN r})
SpeedOk(s, r, v) == LET d == Clamp(2 * Ahead(s, r) - s.stop, 0, s.clear - s.stop) span == s.clear - s.stop IN
   Abs(v * span - s.cruise * d * 125000) <= 4 * span
Driving(s, r, g, v) ==  \* blocked, first, last, heading, nearest, speed (1e-6), turn
  /\ Len(v) = 7 /\ v[1] = 0
  /\ LET p == <<v[2], v[3]>> tolS == 8 + 4 * s.bias IN
     /\ p \in Runs(s, r) /\ MayFit(s, r, p)
     /\ \E aim \in Aims(s, r, p, g) :
        /\ Abs(v[4] - aim) <= Tol
        /\ \A q \in Runs(s, r) \ {p} : Fits(s, r, q) =>
           \E other \in Aims(s, r, q, g) :
              LET mine == Score(s, r, p, g, aim) its == Score(s, r, q, g, other) IN
              IF Pinned(s, r, p) /\ Pinned(s, r, q)
              THEN \/ Abs(aim) < Abs(other)
                   \/ Abs(aim) = Abs(other) /\ p[1] < q[1]
              ELSE mine >= its - tolS
  /\ v[5] = Nearest(s, r)
  /\ SpeedOk(s, r, v[6])
  /\ Abs(2 * v[7] - s.gain * v[4]) <= 2 * s.gain + 4
Stopped(s, r, v) == /\ \A q \in Runs(s, r) : ~Fits(s, r, q)
                    /\ v = <<1, 0, 0, 0, Nearest(s, r), 0, 0>>
Compute(s, a, w) ==
  LET g == a[1] r == [i \in 1..s.n |-> Read(s, a[i + 1])] IN
  IF ~Finite(g) THEN Ret(s, "NonFinite", <<>>)
  ELSE IF w.r = "ok" /\ (Stopped(s, r, w.v) \/ Driving(s, r, g, w.v)) THEN Ret(s, "ok", w.v)
  ELSE Ret(s, "not an allowed command", <<>>)
Beam(s, i) == IF i < s.n THEN Ret(s, "ok", <<Angle(s, i)>>) ELSE Ret(s, "none", <<>>)

(* ---- scan geometry --------------------------------------------------------- *)
Geometry(a) ==  \* n, fov, maximum range
  IF a[1] < 2 THEN Ret(None, "TooFewBeams", <<>>)
  ELSE IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[2] <= 0 \/ a[2] > TwoPi THEN Ret(None, "InvalidFieldOfView", <<>>)
  ELSE IF a[3] <= 0 THEN Ret(None, "NonPositiveRange", <<>>)
  ELSE Ret([k |-> "scan", n |-> a[1], fov |-> a[2], max |-> a[3], min |-> 0], "ok",
           <<a[2], 0, a[3], a[1], ExDiv(a[2] * A, a[1] - 1)>>)
MinRange(s, x) == IF ~Finite(x) THEN Ret(s, "NonFinite", <<>>)
                  ELSE IF x < 0 \/ x >= s.max THEN Ret(s, "InvalidRangeLimits", <<>>)
                  ELSE Ret([s EXCEPT !.min = x], "ok", <<s.fov, x, s.max, s.n, ExDiv(s.fov * A, s.n - 1)>>)
Valid(s, x) == Ret(s, "ok", <<B(Finite(x) /\ x >= s.min /\ x <= s.max)>>)
Near(s, x, w) ==
  IF ~Finite(x) THEN Ret(s, "none", <<>>)
  ELSE IF 2 * Abs(x) > s.fov * A THEN Ret(s, "none", <<>>)
  ELSE LET best == SetMin({Abs(Angle(s, i) - x) : i \in 0..s.n - 1})
           ok == {i \in 0..s.n - 1 : Abs(Angle(s, i) - x) = best} IN
       IF w.r = "ok" /\ Len(w.v) = 1 /\ w.v[1] \in ok THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<SetMin(ok)>>)

Apply(s, op, a, w) ==
  CASE op = "follow" -> Follow(a) [] op = "scan" -> Geometry(a)
    [] s.k = "none" -> Ret(s, "none", <<>>)
    [] op = "gain" -> Gain(s, a[1]) [] op = "bias" -> Bias(s, a[1]) [] op = "scaling" -> Scaling(s, a)
    [] op = "frontal" -> Frontal(s, a[1]) [] op = "compute" -> Compute(s, a, w) [] op = "beam" -> Beam(s, a[1])
    [] op = "minrange" -> MinRange(s, a[1]) [] op = "valid" -> Valid(s, a[1]) [] op = "near" -> Near(s, a[1], w)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
--------------------------------------------------------------------------------
Commanded == out.op = "compute" /\ out.r = "ok" /\ out.v[1] = 0
(* never faster than cruise, never backwards                                     *)
SpeedBounded == Commanded => 0 <= out.v[6] /\ out.v[6] <= st.cruise * 125000 + 4
(* never aims outside the arc the sensor sees, nor at a beam that is not free    *)
InsideGap == Commanded => /\ out.v[4] >= Angle(st, out.v[2]) - Tol
                          /\ out.v[4] <= Angle(st, out.v[3]) + Tol
                          /\ \A i \in out.v[2]..out.v[3] : Read(st, out.a[i + 2]) >= st.thr
BlockedIsFullStop == (out.op = "compute" /\ out.r = "ok" /\ out.v[1] = 1) => out.v[6] = 0 /\ out.v[7] = 0
(* the beam nearest a beam's own direction is that beam                          *)
Inverse == st.k = "scan" => \A i \in 0..st.n - 1 : LET x == Angle(st, i) IN
   {j \in 0..st.n - 1 : Abs(Angle(st, j) - x) = 0} = {i}
================================================================================
