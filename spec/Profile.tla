------------------------------------ MODULE Profile ------------------------------------
(* Point-to-point moves from rest to rest, three axes of them, stretched and paced        *)
(* together.  Distances and times asked for are in quarters, limits whole; everything      *)
(* reported is in ten-thousandths.  A plan is judged by what makes one the fastest: it     *)
(* cruises only at its speed limit and holds an acceleration only at that limit.           *)
EXTENDS Series
VARIABLES st, out
NONE == 7777
Q == 2500
Near(x, y, t) == Abs(x - y) <= t
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Quot(x, y) == IF Abs(y) >= 200000 THEN FD(RDiv(x, 10), RDiv(y, 10)) ELSE FD(x, y)
(* a move: how far in quarters, how long, its peak speed (unsigned) and its seven phases    *)
Still == [d |-> 0, t |-> 0, v |-> 0, ph |-> Rep(7, 0), w |-> <<0, 0, 0>> \o Rep(7, 0)]
Move(v) == [d |-> v[1], t |-> v[2], v |-> Abs(v[3]), ph |-> SubSeq(v, 4, 10), w |-> v]
Sane(v) == Len(v) = 10 /\ (\A k \in 1..10 : Finite(v[k]) /\ v[k] # OFF) /\ v[2] >= 0 /\ \A k \in 4..10 : v[k] >= 0
Jerky(m) == m.ph[1] > 0
Ramp(m) == m.ph[1] + m.ph[2]
Acc(m) == IF Ramp(m) = 0 THEN 0 ELSE Quot(m.v, Ramp(m))
Jerk(m) == IF m.ph[1] = 0 THEN 0 ELSE Quot(Acc(m), m.ph[1])
(* three properties of every move: mirrored phases, they add up, and they cover the way     *)
Shape(m) == /\ m.ph[3] = m.ph[1] /\ m.ph[5] = m.ph[1] /\ m.ph[7] = m.ph[1] /\ m.ph[6] = m.ph[2]
            /\ Near(m.t, Sum(m.ph), 7)
            /\ Sgn(m.w[3]) = Sgn(m.d)
            /\ Near(Q * Abs(m.d), FM(m.v, m.ph[1] + m.ph[2] + m.ph[3] + m.ph[4]), 4 + (m.v + m.t) \div 4000)
Fastest(m, sp, ac, je) ==
  /\ Near(m.v, ONE * sp, 1) \/ (m.v < ONE * sp /\ m.ph[4] <= 1)
  /\ IF je = NONE THEN m.ph[1] = 0 /\ Near(m.v, ac * m.ph[2], ac + 1)
     ELSE /\ Near(je * m.ph[1], ONE * ac, je) \/ (je * m.ph[1] < ONE * ac /\ m.ph[2] <= 1)
          /\ Near(m.v, je * FM(m.ph[1], Ramp(m)), 2 + je + (je * m.ph[1] + je * Ramp(m)) \div 8000)
(* ---- where a move is, e into its phase k: position, speed, acceleration, jerk, unsigned -- *)
SJ(m, k) == IF Jerky(m) THEN <<1, 0, -1, 0, -1, 0, 1>>[k] ELSE 0
SA(m, k) == IF Jerky(m) THEN <<0, 1, 1, 0, 0, -1, -1>>[k] ELSE <<0, 1, 0, 0, 0, -1, 0>>[k]
Into(p, v, m, k, e) ==
  IF Ramp(m) = 0 THEN <<p + FM(v, e), v, 0, 0>> ELSE
  LET sa == SA(m, k) sj == SJ(m, k) ae == IF sa = 0 /\ sj = 0 THEN 0 ELSE Quot(FM(m.v, e), Ramp(m)) jee == IF sj = 0 THEN 0 ELSE Quot(FM(ae, e), m.ph[1]) IN
  <<p + FM(v, e) + sa * (FM(ae, e) \div 2) + sj * RDiv(FM(jee, e), 6), v + sa * ae + sj * (jee \div 2),
    sa * Acc(m) + (IF sj = 0 THEN 0 ELSE sj * Quot(FM(Acc(m), e), m.ph[1])), sj * Jerk(m)>>
RECURSIVE Begin(_, _)
Begin(m, k) == IF k = 1 THEN <<0, 0>> ELSE LET b == Begin(m, k - 1) i == Into(b[1], b[2], m, k - 1, m.ph[k - 1]) IN <<i[1], i[2]>>
In(m, k, e) == LET b == Begin(m, k) IN Into(b[1], b[2], m, k, e)
(* what is read: sure says whether the phase itself is beyond doubt                         *)
Reads(m, v, i, sure) == LET g == Sgn(m.d) big == Acc(m) \div 2000 + Jerk(m) \div 2000 IN
  /\ Near(v[1], g * i[1], 10 + (m.v + m.t) \div 1500 + big) /\ Near(v[2], g * i[2], 8 + m.v \div 4000 + 2 * big)
  /\ Abs(v[2]) <= m.v + 2
  /\ sure => /\ Near(v[3], g * i[3], 6 + 2 * (IF Ramp(m) = 0 THEN 0 ELSE Acc(m) \div Ramp(m)) + 4 * (IF Jerky(m) THEN Acc(m) \div m.ph[1] ELSE 0) + Jerk(m) \div 4000)
             /\ Near(v[4], g * i[4], 6 + (IF Jerky(m) THEN (4 * Jerk(m)) \div m.ph[1] + (4 * Jerk(m)) \div Ramp(m) ELSE 0))
Done(m, v) == v = <<Q * m.d, 0, 0, 0>>
Ends(m, k) == SumTo(m.ph, k)
PhaseAt(m, t) == CHOOSE k \in 1..7 : t < Ends(m, k) /\ \A i \in 1..(k - 1) : t >= Ends(m, i)
(* at a time in ten-thousandths                                                             *)
AtTime(m, t, v) ==
  IF m.t = 0 \/ t >= m.t + 2 THEN Done(m, v)
  ELSE IF t > m.t - 10 THEN Near(v[1], Q * m.d, 20 + m.v \div 1000) /\ Abs(v[2]) <= 20 + Acc(m) \div 500
  ELSE LET u == MaxOf(t, 0) k == PhaseAt(m, u) IN
       Reads(m, v, In(m, k, u - Ends(m, k - 1)), u = 0 \/ (u > Ends(m, k - 1) + 8 /\ u < Ends(m, k) - 8))
Such(s, w, n, p) == IF w.r = "ok" /\ Len(w.v) = n /\ (\A k \in 1..n : Finite(w.v[k]) /\ w.v[k] # OFF) /\ p THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such move">>)
Keep(s, i, m) == [s EXCEPT !.ax[i] = m]
(* stretched to a time: nothing but the pace changes                                        *)
Slower(m, n, t) == LET same == n.w = m.w
                       slow == n.d = m.d /\ Shape(n) /\ Near(n.t, t, 1) /\ Near(FM(n.v, n.t), FM(m.v, m.t), 4 + (n.t + m.t + n.v + m.v) \div 8000)
                               /\ \A k \in 1..7 : Near(FM(n.ph[k], m.t), FM(m.ph[k], n.t), 4 + (n.t + m.t) \div 4000) IN
  IF m.t = 0 \/ t < m.t - 1 THEN same ELSE IF t > m.t + 1 THEN slow ELSE same \/ slow
Slice(v, i) == SubSeq(v, 2 + 10 * (i - 1), 1 + 10 * i)
Init == st = [ax |-> Rep(3, Still), sy |-> Rep(3, Still)] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "units" -> Ret([ax |-> Rep(3, Still), sy |-> Rep(3, Still)], "ok", <<>>)      \* powers of two for lengths and times: nothing else may change
    [] op = "plan" -> \* which axis, speed, acceleration, jerk or NONE, strategy, how far
         LET i == a[1] sp == a[2] ac == a[3] je == a[4] how == a[5] d == a[6] fine(x) == Finite(x) /\ x > 0
             bad == (IF Finite(d) THEN {} ELSE {"NonFinite"}) \cup (IF how = 2 /\ je = NONE THEN {"JerkLimitRequired"} ELSE {}) IN
         IF ~fine(sp) \/ ~fine(ac) \/ ~fine(je) THEN Ret(s, "LimitNotPositive", <<>>)
         ELSE IF bad # {} THEN OneOf(s, w, bad)
         ELSE IF d = 0 THEN Ret(Keep(s, i, Still), "ok", Still.w)
         ELSE IF w.r = "ok" /\ Sane(w.v) /\ LET m == Move(w.v) IN m.d = d /\ m.t > 0 /\ Shape(m) /\ Fastest(m, sp, ac, IF how = 1 THEN NONE ELSE je)
              THEN Ret(Keep(s, i, Move(w.v)), "ok", w.v) ELSE Ret(s, "ok", <<"no such move">>)
    [] op = "stretch" -> \* which axis, to how long
         LET m == s.ax[a[1]] t == Q * a[2] IN
         IF ~Finite(a[2]) \/ a[2] <= 0 THEN Ret(s, "ok", m.w)
         ELSE IF w.r = "ok" /\ Sane(w.v) /\ Slower(m, Move(w.v), t) THEN Ret(Keep(s, a[1], Move(w.v)), "ok", w.v) ELSE Ret(s, "ok", <<"no such move">>)
    [] op = "sync" -> \* 0 at the slowest axis's pace, or 1 over a time; then the time all take and each axis
         LET slow == SetMax({s.ax[i].t : i \in 1..3}) t == IF a[1] = 0 THEN slow ELSE MaxOf(slow, Q * a[2]) IN
         IF a[1] = 1 /\ (~Finite(a[2]) \/ a[2] <= 0) THEN Ret(s, "DurationNotPositive", <<>>)
         ELSE IF w.r = "ok" /\ Len(w.v) = 31 /\ Near(w.v[1], t, 1) /\ \A i \in 1..3 : Sane(Slice(w.v, i)) /\ Slower(s.ax[i], Move(Slice(w.v, i)), t)
              THEN Ret([s EXCEPT !.sy = [i \in 1..3 |-> Move(Slice(w.v, i))]], "ok", w.v) ELSE Ret(s, "ok", <<"no such moves">>)
    [] op = "time" -> IF ~Finite(a[2]) THEN Ret(s, "NonFinite", <<>>) ELSE Such(s, w, 4, AtTime(s.ax[a[1]], Q * a[2], w.v))
    [] op = "phase" -> \* which axis, phase 1..7 or 8 for the end, how many quarters into it
         LET m == s.ax[a[1]] k == a[2] e(i) == (m.ph[i] * a[3]) \div 4 IN
         IF k = 8 \/ m.t = 0 THEN Such(s, w, 4, Done(m, w.v))
         ELSE IF m.ph[k] <= 3 THEN Such(s, w, 4, TRUE)
         ELSE Such(s, w, 4, Reads(m, w.v, In(m, k, e(k)), a[3] < 4))
    [] op = "all" -> IF ~Finite(a[1]) THEN Ret(s, "NonFinite", <<>>)
         ELSE Such(s, w, 12, \A i \in 1..3 : AtTime(s.sy[i], Q * a[1], <<w.v[i], w.v[3 + i], w.v[6 + i], w.v[9 + i]>>))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
=======================================================================================
