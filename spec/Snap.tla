-------------------------------------- MODULE Snap -------------------------------------
(* The smoothest path through waypoints: what it must pass through, how it starts and     *)
(* ends, and what the least total snap means at every join - six derivatives carry over.  *)
EXTENDS Fixed
VARIABLES st, out
MAXS == 4
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Rest == [k \in 1..6 |-> 0]
Close(x, y) == x = y \/ (Finite(x) /\ Finite(y) /\ x # OFF /\ y # OFF /\ Abs(x) < 1000000000 /\ Abs(y) < 1000000000 /\ Abs(x - y) <= 3 + (Abs(x) + Abs(y)) \div 500000)
Init == st = [b |-> Rest, e |-> Rest, go |-> <<>>] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
(* in the answer: segment i, end g (0 its beginning), order n, axis x                       *)
At(v, i, g, n, x) == v[(i - 1) * 28 + g * 14 + 2 * n + x]
Apply(s, op, a, w) ==
  CASE op = "start" -> Ret([s EXCEPT !.b = a], "ok", <<>>)        \* velocity, acceleration, jerk, each along x and y
    [] op = "end" -> Ret([s EXCEPT !.e = a], "ok", <<>>)
    [] op = "plan" -> \* room for free derivatives, waypoints, durations in quarters
         LET room == a[1] n == a[2] nd == a[3] wp == SubSeq(a, 4, 3 + 2 * n) du == SubSeq(a, 4 + 2 * n, 3 + 2 * n + nd)
             bad == (IF n < 2 THEN {"PathTooShort"} ELSE {}) \cup (IF n - 1 > MAXS THEN {"CapacityExceeded"} ELSE {})
                    \cup (IF nd # n - 1 /\ n >= 1 THEN {"SegmentCountMismatch"} ELSE {})
                    \cup (IF \E k \in 1..nd : ~Finite(du[k]) \/ du[k] <= 0 THEN {"DurationNotPositive"} ELSE {})
                    \cup (IF AllFinite(wp) /\ AllFinite(s.b) /\ AllFinite(s.e) THEN {} ELSE {"NonFinite"})
                    \cup (IF 3 * (n - 2) > room THEN {"WorkspaceTooSmall"} ELSE {}) IN
         IF bad # {} THEN OneOf(s, w, bad)
         ELSE LET v == w.v IN
           IF w.r = "ok" /\ Len(v) = 28 * (n - 1)
              /\ \A x \in 1..2 :
                   /\ \A i \in 1..(n - 1) : Close(At(v, i, 0, 0, x), ONE * wp[2 * i - 2 + x]) /\ Close(At(v, i, 1, 0, x), ONE * wp[2 * i + x])
                   /\ \A o \in 1..3 : Close(At(v, 1, 0, o, x), ONE * s.b[2 * o - 2 + x]) /\ Close(At(v, n - 1, 1, o, x), ONE * s.e[2 * o - 2 + x])
                   /\ \A i \in 1..(n - 2) : \A o \in 1..6 : Close(At(v, i, 1, o, x), At(v, i + 1, 0, o, x))
           THEN Ret(s, "ok", v) ELSE Ret(s, "ok", <<"no such path">>)
    [] op = "times" -> \* speed in quarters, how many durations, the waypoints
         LET speed == a[1] nd == a[2] n == (Len(a) - 2) \div 2 wp == SubSeq(a, 3, Len(a))
             gap(i) == LET dx == wp[2 * i + 1] - wp[2 * i - 1] dy == wp[2 * i + 2] - wp[2 * i] IN dx * dx + dy * dy
             bad == (IF n < 2 THEN {"PathTooShort"} ELSE {}) \cup (IF nd # n - 1 /\ n >= 1 THEN {"SegmentCountMismatch"} ELSE {})
                    \cup (IF ~Finite(speed) \/ speed <= 0 THEN {"DurationNotPositive"} ELSE {})
                    \cup (IF AllFinite(wp) THEN (IF \E i \in 1..(n - 1) : gap(i) = 0 THEN {"DurationNotPositive"} ELSE {}) ELSE {"NonFinite"}) IN
         IF bad # {} THEN OneOf(s, w, bad)
         ELSE LET v == w.v IN IF w.r = "ok" /\ Len(v) = nd /\ \A i \in 1..nd : LET x == v[i] * speed IN x >= 0 /\ Abs(RDiv(x, 100) - Root(160000 * gap(i))) <= 2       \* durations in ten-thousandths
              THEN Ret(s, "ok", v) ELSE Ret(s, "ok", <<"no such times">>)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
=======================================================================================
