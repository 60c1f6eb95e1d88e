-------------------------------------- MODULE Path -------------------------------------
(* A path of straight legs between whole-numbered waypoints in space, grown one waypoint  *)
(* at a time.  Lengths and points are in ten-thousandths; distances ahead, in quarters.    *)
EXTENDS Fixed
VARIABLES st, out
MAXN == 6
Near(x, y, t) == Abs(x - y) <= t
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Such(s, w, n, p) == IF w.r = "ok" /\ Len(w.v) = n /\ (\A k \in 1..n : Finite(w.v[k]) /\ w.v[k] # OFF) /\ p THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such answer">>)
(* the square root of a whole number up to fifty million                                    *)
Fine(n, m, f) == LET y == Root(n * m * m) r == n * m * m - y * y IN y * f + (IF y = 0 THEN 0 ELSE RDiv(r * f, 2 * y))
Root0(n) == IF n < 200000 THEN Fine(n, 100, 100) ELSE IF n < 20000000 THEN Fine(n, 10, 1000) ELSE Fine(n, 1, ONE)
Minus(p, q) == [k \in 1..3 |-> p[k] - q[k]]
Times(p, n, d) == RDiv((p * n % d) * ONE, d) + ONE * ((p * n) \div d)                        \* p n / d
Tenk(p) == [k \in 1..3 |-> ONE * p[k]]
Legs(p) == MaxOf(Len(p) - 1, 0)
Edge(p, i) == Minus(p[i + 1], p[i])
Sq(e) == Dot(e, e)
(* what is known of a path: its legs, squared and plain, how far along each starts           *)
Made(p, loop) == LET n2 == TLCEval([i \in 1..Legs(p) |-> Sq(Edge(p, i))]) l == TLCEval([i \in 1..Legs(p) |-> Root0(n2[i])]) IN
  [p |-> p, loop |-> loop, n2 |-> n2, l |-> l, from |-> TLCEval([i \in 1..Len(p) |-> Sum(SubSeq(l, 1, i - 1))])]
Total(s) == IF s.p = <<>> THEN 0 ELSE s.from[Len(s.p)]
Straight(s) == \A i \in 1..Len(s.l) : LET y == Root(s.n2[i]) IN y * y = s.n2[i]
(* the point a length along the path                                                         *)
Along(s, x) == IF x <= 0 THEN Tenk(s.p[1]) ELSE IF x >= Total(s) THEN Tenk(s.p[Len(s.p)])
  ELSE LET i == CHOOSE i \in 1..Len(s.l) : s.from[i] <= x /\ x < s.from[i + 1] e == Edge(s.p, i) IN
       [k \in 1..3 |-> ONE * s.p[i][k] + Sgn(e[k]) * LET u == Abs(e[k]) * (x - s.from[i]) IN (u \div s.l[i]) * ONE + RDiv((u % s.l[i]) * ONE, s.l[i])]
Same(v, p, t) == \A k \in 1..3 : Near(v[k], p[k], t)
(* the point x on, where sure says nothing was rounded on the way to x                        *)
Ahead(s, v, x, sure) ==
  LET n == Len(s.p) t == Total(s) first == Tenk(s.p[1]) last == Tenk(s.p[n]) slack == 6 + Abs(x) \div MaxOf(t, 1) + Abs(x) \div 1000000 IN
  IF n = 1 THEN v = first
  ELSE IF s.loop THEN
    (IF t = 0 THEN v = first
     ELSE LET m == x % t IN IF sure /\ Straight(s) THEN (IF m = 0 THEN v = first ELSE Same(v, Along(s, m), 2))
          ELSE Same(v, Along(s, m), slack) \/ (m <= slack /\ Same(v, last, slack)) \/ (m >= t - slack /\ Same(v, first, slack)))
  ELSE IF sure /\ x <= 0 /\ t > 0 THEN v = first
  ELSE IF x > t + 5 \/ (sure /\ Straight(s) /\ x >= t) THEN v = last
  ELSE IF x < -5 THEN v = first ELSE Same(v, Along(s, x), 6)
(* the nearest point of leg i to q: how far along it as a fraction, where, how far off         *)
Foot(s, i, q) == IF s.n2[i] = 0 THEN 0 ELSE Clamp(Dot(Minus(q, s.p[i]), Edge(s.p, i)), 0, s.n2[i])
Over(s, i) == MaxOf(s.n2[i], 1)
At(s, i, q) == LET e == Edge(s.p, i) c == Foot(s, i, q) IN [k \in 1..3 |-> ONE * s.p[i][k] + Times(e[k], c, Over(s, i))]
Off(s, i, q) == LET a == Sq(Minus(q, s.p[i])) e == Edge(s.p, i) d == Over(s, i) c == Foot(s, i, q)
                    n == a * d - 2 * c * Dot(Minus(q, s.p[i]), e) + c * c IN       \* squared, over d
                RDiv(Root0(n * d), d)
Arrive(s, i, q) == s.from[i] + RDiv(s.l[i] * Foot(s, i, q), Over(s, i))
Closest(s, q, slack) == {i \in 1..Len(s.l) : \A j \in 1..Len(s.l) : Off(s, i, q) <= Off(s, j, q) + slack}
Fine3(p) == \A k \in DOMAIN p : Finite(p[k])
Init == st = Made(<<>>, FALSE) /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "points" -> \* how many, then where: a path that stops at its end
         LET n == a[1] c == Tail(a) bad == (IF n > MAXN THEN {"CapacityExceeded"} ELSE {}) \cup (IF Fine3(c) THEN {} ELSE {"NonFinite"}) IN
         IF bad # {} THEN OneOf(s, w, bad) ELSE Ret(Made([i \in 1..n |-> SubSeq(c, 3 * i - 2, 3 * i)], FALSE), "ok", <<>>)
    [] op = "push" -> LET bad == (IF Len(s.p) = MAXN THEN {"CapacityExceeded"} ELSE {}) \cup (IF Fine3(a) THEN {} ELSE {"NonFinite"}) IN
         IF bad # {} THEN OneOf(s, w, bad) ELSE Ret(Made(Append(s.p, a), s.loop), "ok", <<>>)
    [] op = "end" -> Ret([s EXCEPT !.loop = a[1] = 1], "ok", <<>>)
    [] op = "units" -> Ret(Made(<<>>, FALSE), "ok", <<>>)                    \* a power of two for lengths: nothing else may change
    [] op = "info" -> \* how many, whether none, the whole length, the waypoints
         LET n == Len(s.p) IN Such(s, w, 3 + 3 * n, w.v[1] = n /\ w.v[2] = B(n = 0) /\ Near(w.v[3], Total(s), 4) /\ SubSeq(w.v, 4, 3 + 3 * n) = Flat(s.p))
    [] op = "near" -> \* the projection of a point: where, on which leg, how far along, how far off
         IF s.p = <<>> THEN Ret(s, "PathTooShort", <<>>)
         ELSE IF Len(s.p) = 1 THEN Such(s, w, 6, SubSeq(w.v, 1, 5) = Tenk(s.p[1]) \o <<0, 0>> /\ Near(w.v[6], Root0(Sq(Minus(a, s.p[1]))), 2))
         ELSE Such(s, w, 6, LET i == w.v[4] + 1 IN i \in Closest(s, a, 3) /\ Same(w.v, At(s, i, a), 2) /\ Near(w.v[5], Arrive(s, i, a), 8) /\ Near(w.v[6], Off(s, i, a), 3))
    [] op = "ahead" -> IF s.p = <<>> THEN Ret(s, "PathTooShort", <<>>) ELSE Such(s, w, 3, Ahead(s, w.v, 2500 * (a[1] + a[2]), TRUE))
    [] op = "follow" -> \* from the projection of a point, so many quarters ahead
         IF s.p = <<>> THEN Ret(s, "PathTooShort", <<>>)
         ELSE IF Len(s.p) = 1 THEN Such(s, w, 3, w.v = Tenk(s.p[1]))
         ELSE Such(s, w, 3, \E i \in Closest(s, SubSeq(a, 1, 3), 3) : \E d \in {-8, 0, 8} : Ahead(s, w.v, Arrive(s, i, SubSeq(a, 1, 3)) + 2500 * a[4] + d, FALSE))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
=======================================================================================
