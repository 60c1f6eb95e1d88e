------------------------------------ MODULE Ik ------------------------------------
(* Inverse kinematics on planar arms. The specification recomputes the tool pose of  *)
(* the reported configuration itself (fixed point, 1e-4) and holds the report to it. *)
(* Inputs are hundredths, observations ten-thousandths.                               *)
EXTENDS Fixed
VARIABLES st, out
Rev == 0 PriX == 1 Con == 2 PriY == 3 Flo == 4
Robots == << <<<<PriX, 0>>, <<PriY, 0>>>>, <<<<PriX, 0>>, <<PriY, 0>>, <<PriX, 0>>>>, <<<<Rev, ONE>>, <<Rev, ONE>>>>,
  <<<<Rev, ONE>>, <<Rev, ONE>>, <<Rev, 5000>>>>, <<<<Con, ONE>>, <<PriX, 5000>>, <<Con, 5000>>>>, <<<<Flo, ONE>>, <<Rev, 5000>>>>,
  <<<<Con, ONE>>, <<Con, ONE>>, <<Rev, 5000>>, <<PriX, 0>>>> >>
Rob(r) == Robots[r + 1]
NJ(r) == Len(Rob(r))
NQ(r) == NJ(r) + IF Rob(r)[1][1] = Flo THEN 2 ELSE 0          \* a floating joint reads x, y, heading
At(r, i) == IF i = 1 THEN 1 ELSE i + NQ(r) - NJ(r)            \* first reading of joint i
Move(r, i, q) == LET k == Rob(r)[i][1] x == q[At(r, i)] IN
  CASE k \in {Rev, Con} -> <<0, 0, x>> [] k = PriX -> <<x, 0, 0>> [] k = PriY -> <<0, x, 0>> [] k = Flo -> <<x, q[2], q[3]>>
RECURSIVE Reach(_, _, _)
(* pose of joint n's frame, link before it included                                    *)
Reach(r, q, n) == IF n = 0 THEN <<0, 0, 0>> ELSE LET p == Reach(r, q, n - 1) IN
   TLCEval(PMul(IF n = 1 THEN p ELSE PMul(p, <<Rob(r)[n - 1][2], 0, 0>>), Move(r, n, q)))
Tool(r, q, t) == IF t = NJ(r) THEN PMul(Reach(r, q, t), <<Rob(r)[t][2], 0, 0>>) ELSE Reach(r, q, t + 1)
(* ---- what a report may say, given the pose reached -------------------------------- *)
EPS == 12
VX2(x) == <<100 * x[1], 100 * x[2], 100 * x[3]>>                \* hundredths to ten-thousandths
OffBy(p, t) == <<Abs(p[1] - t[1]), Abs(p[2] - t[2]), Abs(Wrap(p[3] - t[3]))>>
(* the translational residual is the length of the straight part of the logarithm:        *)
(* the chord, stretched by at most pi/2 as the heading error grows to half a turn          *)
PosOk(e, d) == LET big == MaxOf(d[1], d[2]) sm == d[1] + d[2] IN
   /\ e >= big - EPS
   /\ IF sm <= 20000 THEN LET D == Root(d[1] * d[1] + d[2] * d[2]) IN e >= D - EPS /\ e <= (IF d[3] <= 1000 THEN D + EPS ELSE (D * 15709) \div 10000 + EPS)
      ELSE e <= (sm \div 10000) * 15709 + 15709 + EPS
AngOk(e, d) == Abs(e - d[3]) <= EPS
Solve(s, a, w) ==
  LET r == a[1] tool == a[2] n == NJ(r) t == VX2(SubSeq(a, 10, 12)) lim == SubSeq(a, 14, 13 + 3 * n) seed == SubSeq(a, 14 + 3 * n, 13 + 3 * n + NQ(r))
      wrong == (IF tool > n THEN {"ToolIndexOutOfRange"} ELSE {}) \cup (IF ~AllFinite(seed) \/ ~AllFinite(SubSeq(a, 10, 12)) THEN {"NonFinite"} ELSE {})
               \cup (IF a[8] \in {2, 3} THEN {"NonPositiveWeight"} ELSE {})
      q == SubSeq(w.v, 7, Len(w.v)) d == OffBy(Tool(r, q, tool), t)
      H(i, k) == 100 * lim[3 * (i - 1) + k]
      Held(i) == lim[3 * (i - 1) + 1] = 0 \/ Rob(r)[i][1] = Flo \/ (q[At(r, i)] >= H(i, 2) - 1 /\ q[At(r, i)] <= H(i, 3) + 1)
      inside(i, x) == a[13] = 0 \/ lim[3 * (i - 1) + 1] = 0 \/ (x >= H(i, 2) /\ x <= H(i, 3))
      \* a plain gantry with the target inside its travel, time and step enough to get there
      mustReach == r = 0 /\ tool = n /\ t[3] = 0 /\ inside(1, t[1]) /\ inside(2, t[2]) /\ a[3] >= 10 /\ a[4] >= 10 /\ a[6] >= 20 /\ a[7] = 0
                   /\ a[6] * (a[5] - 4) >= Abs(a[10]) + Abs(a[11]) + Abs(seed[1]) + Abs(seed[2])
  IN IF wrong # {} THEN Ret(s, IF w.r \in wrong THEN w.r ELSE "should be refused", <<>>)
     ELSE IF /\ w.r = "ok" /\ Len(w.v) = 6 + NQ(r) /\ AllFinite(w.v)
             /\ w.v[1] \in 0..2 /\ w.v[2] \in 0..a[5]
             /\ PosOk(w.v[3], d) /\ AngOk(w.v[4], d)
             /\ w.v[1] = 0 => d[1] <= a[3] + EPS /\ d[2] <= a[3] + EPS /\ d[3] <= a[4] + EPS
             /\ w.v[5] = 1
             /\ a[13] = 1 => w.v[6] = 1 /\ \A i \in 1..n : Held(i)
             /\ mustReach => w.v[1] = 0
          THEN Ret(s, "ok", w.v) ELSE Ret(s, "not a truthful report", IF Len(w.v) = 6 + NQ(r) THEN <<d>> ELSE <<>>)
(* ---- one undamped step of the redundant gantry: least weighted motion to the target, and  *)
(* ---- the preferred posture only where it does not move the tool                           *)
Share == <<<<1, 2>>, <<4, 5>>, <<1, 10>>>>                    \* of joint 1 against joint 3, by weights
One(a) == LET q == SubSeq(a, 5, 7) ref == SubSeq(a, 8, 10) ex == a[3] - q[1] - q[3] ey == a[4] - q[2] f == Share[a[1] + 1]
              bias(i) == IF a[2] = 1 THEN ref[i] - q[i] ELSE 0
              x == ex - bias(1) - bias(3) IN
   IF ex = 0 /\ ey = 0 THEN <<0, 100 * q[1], 100 * q[2], 100 * q[3]>>
   ELSE <<1, 100 * (q[1] + bias(1)) + ExDiv(100 * x * f[1], f[2]), 100 * (q[2] + ey), 100 * (q[3] + bias(3)) + ExDiv(100 * x * (f[2] - f[1]), f[2])>>
(* ---- several starts ------------------------------------------------------------------------ *)
Gap(r, q, z) == LET d(i) == IF Rob(r)[i][1] = Con THEN Abs(Wrap(q[i] - z[i])) ELSE Abs(q[i] - z[i]) IN
   IF \E i \in 1..NJ(r) : d(i) > 20000 THEN 200000 ELSE Root(Sum([i \in 1..NJ(r) |-> d(i) * d(i)]))
RECURSIVE Keep(_, _, _, _)
Keep(r, thr, runs, n) == IF n = 0 THEN <<>> ELSE LET k == Keep(r, thr, runs, n - 1) x == runs[n] IN
   IF x[1] # 0 \/ \E i \in DOMAIN k : Gap(r, k[i], Tail(x)) < thr THEN k ELSE Append(k, Tail(x))
Multi(s, a, w) ==
  LET r == a[1] n == NJ(r) m == a[8] t == VX2(SubSeq(a, 5, 7)) thr == 100 * a[3]
      Run(i) == SubSeq(w.v, 4 + (i - 1) * (n + 1), 3 + i * (n + 1))
      Kept(i) == SubSeq(w.v, 4 + m * (n + 1) + (i - 1) * n, 3 + m * (n + 1) + i * n)
      runs == [i \in 1..m |-> Run(i)] kept == [i \in 1..w.v[2] |-> Kept(i)]
      conv == {i \in 1..m : runs[i][1] = 0}
      unclear == \E i, j \in conv : i # j /\ Abs(Gap(r, Tail(runs[i]), Tail(runs[j])) - thr) <= 30
      zero == [i \in 1..n |-> 0]
      good(q) == LET d == OffBy(Tool(r, q, a[2]), t) IN d[1] <= 1 + EPS /\ d[2] <= 1 + EPS /\ d[3] <= 1 + EPS
  IN IF m > a[4] THEN Ret(s, "StartCapacityExceeded", <<>>)
     ELSE IF /\ w.r = "ok" /\ Len(w.v) >= 3 /\ w.v[2] \in 0..m /\ Len(w.v) = 3 + m * (n + 1) + w.v[2] * n
             /\ w.v[1] = m
             /\ \A i \in DOMAIN kept : good(kept[i]) /\ (\E j \in conv : Tail(runs[j]) = kept[i])
             /\ ~unclear => kept = Keep(r, thr, runs, m)
             /\ \A i, j \in DOMAIN kept : i # j => Gap(r, kept[i], kept[j]) >= thr - 5
             /\ (conv = {}) = (w.v[2] = 0)
             /\ IF w.v[2] = 0 THEN w.v[3] = -1 ELSE w.v[3] \in 0..w.v[2] - 1 /\ \A i \in DOMAIN kept : (Gap(r, kept[w.v[3] + 1], zero) <= Gap(r, kept[i], zero) + 5 \/ (Gap(r, kept[w.v[3] + 1], zero) = 200000 /\ Gap(r, kept[i], zero) >= 20000))
          THEN Ret(s, "ok", w.v) ELSE Ret(s, "not what the starts found", <<>>)
(* ---- the starts drawn around a base: unit draw a[4] in eighths, everything counts as found *)
Jitter(s, a, w) ==
  LET r == a[1] n == NJ(r) cnt == a[2] span == a[3] u == a[4] lim == SubSeq(a, 7, 6 + 3 * n) base == SubSeq(a, 7 + 3 * n, 6 + 3 * n + NQ(r))
      has(i) == lim[3 * (i - 1) + 1] = 1 lo(i) == lim[3 * (i - 1) + 2] hi(i) == lim[3 * (i - 1) + 3]
      moved(i) == IF has(i) THEN 100 * lo(i) + ExDiv(100 * u * (hi(i) - lo(i)), 8) ELSE 100 * base[At(r, i)] + ExDiv(100 * (2 * u - 8) * span, 8)
      JointOf(k) == IF NQ(r) = NJ(r) THEN k ELSE IF k <= 3 THEN 1 ELSE k - 2
      held(i, x) == IF a[6] = 1 /\ has(i) /\ Rob(r)[i][1] # Flo THEN Clamp(x, 100 * lo(i), 100 * hi(i)) ELSE x
      first == [k \in 1..NQ(r) |-> held(JointOf(k), 100 * base[k])]
      other == [k \in 1..NQ(r) |-> IF Rob(r)[JointOf(k)][1] = Flo THEN 100 * base[k] ELSE held(JointOf(k), moved(JointOf(k)))]
  IN IF cnt > a[5] THEN Ret(s, "StartCapacityExceeded", <<>>)
     ELSE Ret(s, "ok", <<cnt, cnt>> \o Flat([i \in 1..cnt |-> IF i = 1 THEN first ELSE other]))
Apply(s, op, a, w) ==
  CASE op = "solve" -> Solve(s, a, w) [] op = "one" -> Ret(s, "ok", One(a)) [] op = "multi" -> Multi(s, a, w) [] op = "jitter" -> Jitter(s, a, w)
Init == st = [k |-> "solver"] /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
-----------------------------------------------------------------------------------
(* one step lands on the target whatever the weights and the posture asked for         *)
StepReaches == out.op = "one" => LET a == out.a IN out.v[2] + out.v[4] = 100 * a[3] /\ out.v[3] = 100 * a[4]
===================================================================================
