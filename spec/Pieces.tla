------------------------------------- MODULE Pieces ------------------------------------
(* A curve of polynomial pieces laid end to end, each on its own 0-to-1 clock, two axes,  *)
(* up to four coefficients; times are in quarters.  st.ord is how often it has been        *)
(* differentiated.  Every answer is that of the one piece that owns the time asked about.  *)
EXTENDS Fixed
VARIABLES st, out
MAXP == 4
Near(x, y, t) == Abs(x - y) <= t
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
(* n over d in ten-thousandths, rounded                                                     *)
Digits(n, d) == Sgn(n) * ((Abs(n) \div d) * ONE + RDiv((Abs(n) % d) * ONE, d))
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
RECURSIVE Falling(_, _)
Falling(k, n) == IF n = 0 THEN 1 ELSE k * Falling(k - 1, n - 1)
Start(s, i) == SumTo(s.sp, i - 1)
Total(s) == Sum(s.sp)
(* the piece that owns a time: a join belongs to the piece after it, the end to the last    *)
Owner(s, t) == IF t <= 0 THEN <<1, 0>> ELSE IF t >= Total(s) THEN <<Len(s.sp), s.sp[Len(s.sp)]>>
  ELSE LET i == CHOOSE i \in 1..Len(s.sp) : Start(s, i) <= t /\ t < Start(s, i + 1) IN <<i, t - Start(s, i)>>
(* the n-th derivative d quarters into piece i                                              *)
Value(s, i, d, ax, n) == IF n > 3 THEN 0 ELSE
  LET c == s.co[i][ax] h == s.sp[i] IN Digits(Power(4, n) * Sum([m \in 1..(4 - n) |-> Falling(m + n - 1, n) * c[m + n] * Power(d, m - 1) * Power(h, 4 - m - n)]), Power(h, 3))
(* the area under piece i up to d quarters into it                                          *)
Under(s, i, d, ax) == LET c == s.co[i][ax] h == s.sp[i] IN
  Digits(Sum([k \in 1..4 |-> (12 \div k) * c[k] * Power(d, k) * Power(h, 4 - k)]), 48 * Power(h, 3))
Area(s, lo, hi, ax) == Sum([i \in 1..Len(s.sp) |-> LET b == Start(s, i) x == Clamp(lo, b, b + s.sp[i]) - b y == Clamp(hi, b, b + s.sp[i]) - b IN
  IF s.ord = 0 THEN Under(s, i, y, ax) - Under(s, i, x, ax) ELSE Value(s, i, y, ax, s.ord - 1) - Value(s, i, x, ax, s.ord - 1)])
Such(s, w, v, t) == IF w.r = "ok" /\ Len(w.v) = Len(v) /\ \A k \in DOMAIN v : Near(w.v[k], v[k], t) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", v)
Blank == [sp |-> <<4>>, co |-> <<<<Rep(4, 0), Rep(4, 0)>>>>, ord |-> 0]
Init == st = Blank /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "build" -> \* how many pieces, how many spans, the spans, then eight coefficients a piece
         LET np == a[1] ns == a[2] sp == SubSeq(a, 3, 2 + ns)
             bad == (IF np = 0 \/ ns = 0 THEN {"Empty"} ELSE {}) \cup (IF np # ns \/ np > MAXP THEN {"CapacityExceeded"} ELSE {})
                    \cup (IF \E k \in 1..ns : ~Finite(sp[k]) \/ sp[k] <= 0 THEN {"SpanNotPositive"} ELSE {}) IN
         IF bad # {} THEN OneOf(s, w, bad)
         ELSE LET n == [sp |-> sp, co |-> [i \in 1..np |-> [ax \in 1..2 |-> SubSeq(a, 3 + ns + 8 * (i - 1) + 4 * (ax - 1), 2 + ns + 8 * (i - 1) + 4 * ax)]], ord |-> 0] IN
              Ret(n, "ok", <<np, Total(n)>> \o sp \o <<-1>>)      \* count, total, each span, none past the last
    [] op = "slope" -> Ret([s EXCEPT !.ord = @ + a[1]], "ok", <<Len(s.sp), Total(s)>>)
    [] op = "at" -> IF a[1] = NAN THEN Ret(s, w.r, w.v) ELSE
         LET o == IF a[1] = INF THEN Owner(s, Total(s)) ELSE IF a[1] = NINF THEN Owner(s, 0) ELSE Owner(s, a[1]) IN
         Such(s, w, Flat([n \in 1..5 |-> [ax \in 1..2 |-> Value(s, o[1], o[2], ax, n - 1 + s.ord)]]), 1)
    [] op = "area" -> LET f(x) == IF x = INF THEN Total(s) ELSE IF x = NINF THEN 0 ELSE x IN
         Such(s, w, [ax \in 1..2 |-> LET lo == f(a[1]) hi == f(a[2]) IN IF hi < lo THEN -Area(s, hi, lo, ax) ELSE Area(s, lo, hi, ax)], 2 * Len(s.sp))
    [] op = "poly" -> \* one axis of one piece, on the piece's own clock, in ten-thousandths
         IF a[1] \in 0..(Len(s.sp) - 1) /\ a[2] \in 0..1
         THEN LET c == s.co[a[1] + 1][a[2] + 1] h == s.sp[a[1] + 1] n == s.ord IN
              Such(s, w, [k \in 1..4 |-> IF k + n > 4 THEN 0 ELSE Digits(Falling(k + n - 1, n) * c[k + n] * Power(4, n), Power(h, n))], 1)
         ELSE Ret(s, "none", <<>>)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* ---- of the model: areas split anywhere, and the area of the slope is the rise, piece by piece ---- *)
Split == out.op \in {"build", "slope"} => \A lo, m, hi \in {-1, 3, 5, 99} : lo <= m /\ m <= hi => \A ax \in 1..2 : Near(Area(st, lo, m, ax) + Area(st, m, hi, ax), Area(st, lo, hi, ax), 3 * Len(st.sp))
=======================================================================================
