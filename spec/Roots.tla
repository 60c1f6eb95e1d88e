------------------------------------- MODULE Roots -------------------------------------
(* A polynomial known by its roots: real ones with repeats, and pairs that are not real.  *)
(* Roots are in quarters; r stands for r / 4, and a pair <<a, b>> for (a +- i sqrt b) / 4. *)
(* Stretching the argument, shifting it, mirroring it and scaling the coefficients by      *)
(* anything at all move the roots in ways known exactly, and each finder must follow.      *)
EXTENDS Fixed
VARIABLES st, out
MICRO == 250000                      \* a quarter, in millionths
Sorted(q) == SortSeq(q, LAMBDA x, y : x < y)
Distinct(q) == SelectSeq([k \in 1..Len(q) |-> <<k, q[k]>>], LAMBDA t : t[1] = 1 \/ q[t[1] - 1] # t[2])
Roots(s) == LET q == Distinct(s.re) IN [k \in 1..Len(q) |-> q[k][2]]
Deg(s) == Len(s.re) + 2 * Len(s.im)
Size(s) == SetMax({0} \cup {Abs(s.re[k]) : k \in DOMAIN s.re} \cup {Abs(s.im[k][1]) : k \in DOMAIN s.im} \cup {s.im[k][2] : k \in DOMAIN s.im})
Repeats(s) == Len(Roots(s)) # Len(s.re) \/ \E i, j \in DOMAIN s.im : i # j /\ s.im[i] = s.im[j]
(* past these the chain of remainders runs out of digits, and only its shape is promised    *)
Sure(s) == CASE Deg(s) <= 4 -> Size(s) <= 24 [] Deg(s) = 5 -> Size(s) <= 8 [] OTHER -> Size(s) <= 8 /\ Len(s.im) = 0 /\ (Deg(s) = 6 \/ ~Repeats(s))
Near(x, y, t) == Abs(x - y) <= t
Such(s, w, p) == IF w.r = "ok" /\ (\A k \in DOMAIN w.v : Finite(w.v[k]) /\ w.v[k] # OFF) /\ p THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such result">>)
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
(* the ends are in eighths; the range leaves its lower end out                              *)
Within(q, lo, hi) == SelectSeq(q, LAMBDA x : 2 * x > lo /\ 2 * x <= hi)
AtEnd(q, e) == \E k \in DOMAIN q : 2 * q[k] = e
(* a repeated root exactly on an end may fall either side of it                             *)
Choices(s, lo, hi) == LET q == Roots(s) in == SelectSeq(q, LAMBDA x : 2 * x > lo /\ 2 * x < hi)
    low == IF Repeats(s) /\ lo < hi /\ AtEnd(q, lo) THEN {<<>>, <<lo \div 2>>} ELSE {<<>>}
    high == IF lo < hi /\ AtEnd(q, hi) THEN (IF Repeats(s) THEN {<<>>, <<hi \div 2>>} ELSE {<<hi \div 2>>}) ELSE {<<>>} IN
    {l \o in \o h : l \in low, h \in high}
RECURSIVE Halvings(_, _)
Halvings(width, tol) == IF width <= tol THEN 0 ELSE 1 + Halvings((width + 1) \div 2, tol)     \* at least as many as needed
RECURSIVE Fewest(_, _)
Fewest(width, tol) == IF width <= tol THEN 0 ELSE 1 + Fewest(width \div 2, tol)
Init == st = [re |-> <<>>, im |-> <<>>, f |-> 1] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Pairs(a, i) == [k \in 1..((Len(a) - i + 1) \div 2) |-> <<a[i + 2 * k - 2], a[i + 2 * k - 1]>>]
Held(re, im, f) == [re |-> Sorted(re), im |-> im, f |-> f]
Done(s) == Ret(s, "ok", <<Deg(s)>>)
Apply(s, op, a, w) ==
  CASE op = "make" -> Done(Held(SubSeq(a, 3, 2 + a[2]), Pairs(a, 3 + a[2]), Abs(a[1])))        \* leading factor, how many, the roots, the pairs
    [] op \in {"power", "neg"} -> Done(s)
    [] op = "times" -> Done([s EXCEPT !.f = MinOf(@ * Abs(a[1]), 1000)])
    [] op = "shift" -> Done(Held([k \in DOMAIN s.re |-> s.re[k] - a[1]], [k \in DOMAIN s.im |-> <<s.im[k][1] - a[1], s.im[k][2]>>], s.f))
    [] op = "mirror" -> Done(Held([k \in DOMAIN s.re |-> -s.re[k]], [k \in DOMAIN s.im |-> <<-s.im[k][1], s.im[k][2]>>], s.f))
    [] op = "half" -> Done(Held([k \in DOMAIN s.re |-> 2 * s.re[k]], [k \in DOMAIN s.im |-> <<2 * s.im[k][1], 4 * s.im[k][2]>>], s.f))
    [] op = "factor" -> Done(Held(s.re \o <<a[1]>>, s.im, s.f))
    [] op = "closed" ->
         IF a[1] <= Deg(s) THEN Ret(s, "none", <<>>)
         ELSE IF a[1] > Deg(s) + 1 THEN Ret(s, "LeadingCoefficientZero", <<>>)
         ELSE IF Repeats(s) /\ s.f > 30 THEN Such(s, w, Len(w.v) <= Deg(s))      \* with larger factors a repeat is decided by rounding
         ELSE Such(s, w, Len(w.v) = Len(s.re) /\ \A k \in 1..Len(s.re) : Near(w.v[k], MICRO * s.re[k], 2) /\ (k > 1 => w.v[k - 1] <= w.v[k]))
    [] op = "count" ->
         IF ~AllFinite(a) THEN Ret(s, "NonFinite", <<>>)
         ELSE IF Sure(s) THEN Such(s, w, Len(w.v) = 1 /\ \E q \in Choices(s, a[1], a[2]) : w.v[1] = Len(q))
         ELSE Such(s, w, Len(w.v) = 1 /\ w.v[1] \in 0..Deg(s))
    [] op = "within" ->      \* lower, upper in eighths, tolerance in millionths (-1 for one too small to reach), halvings
         LET lo == a[1] hi == a[2] tol == a[3] most == a[4]
             bad == (IF Finite(lo) /\ Finite(hi) /\ Finite(tol) THEN {} ELSE {"NonFinite"})
                    \cup (IF Finite(tol) /\ tol = 0 THEN {"ToleranceNotPositive"} ELSE {})
                    \cup (IF Finite(lo) /\ Finite(hi) /\ lo > hi THEN {"RangeReversed"} ELSE {}) IN
         IF bad # {} THEN OneOf(s, w, bad)
         ELSE LET width == 125000 * (hi - lo) found == Choices(s, lo, hi)
                  good(q) == Len(w.v) = Len(q) /\ \A k \in 1..Len(q) : Near(w.v[k], MICRO * q[k], MaxOf(tol, 1) + 1) /\ (k > 1 => w.v[k - 1] <= w.v[k])
                  most1 == SetMax({Len(q) : q \in found}) least == SetMin({Len(q) : q \in found})
                  needs == Fewest(width, MaxOf(tol, 1)) IN
              IF ~Sure(s) THEN (IF w.r = "DidNotConverge" THEN Ret(s, w.r, <<>>) ELSE Such(s, w, Len(w.v) <= Deg(s)))
              ELSE IF most1 = 0 THEN Ret(s, "ok", <<>>)
              ELSE IF least > 0 /\ ((tol = -1 /\ most < 900) \/ most < needs) THEN Ret(s, "DidNotConverge", <<>>)
              ELSE IF w.r = "DidNotConverge" /\ (tol = -1 \/ most < most1 * (Halvings(width, tol) + 1)) THEN Ret(s, "DidNotConverge", <<>>)
              ELSE Such(s, w, \E q \in found : good(q))
    [] op = "bound" -> IF w.r = "ok" /\ Len(w.v) = 1 /\ w.v[1] # NAN /\ w.v[1] # NINF /\ w.v[1] >= 1000 /\ (Finite(w.v[1]) /\ w.v[1] # OFF => \A k \in DOMAIN s.re : w.v[1] > 250 * Abs(s.re[k]))
                       THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such result">>)
    [] op = "raw" -> \* which question, then whole coefficients: those no finder can answer for
         LET q == Tail(a) IN
         IF ~AllFinite(q) THEN Ret(s, "NonFinite", <<>>) ELSE Ret(s, "LeadingCoefficientZero", <<>>)
    [] op = "line" -> \* the straight line a + b x, in millionths
         Such(s, w, Len(w.v) = 1 /\ Near(w.v[1], RDiv(-1000000 * a[1], a[2]), 1))
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
=======================================================================================
