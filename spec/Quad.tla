-------------------------------------- MODULE Quad --------------------------------------
(* Integration rules and what they must give: polynomials of their class exactly (as a    *)
(* whole number once multiplied by a given factor), tails to infinity, waves and curves    *)
(* to a ten-thousandth; which limits, counts and choices they refuse.                      *)
EXTENDS Fixed
VARIABLES st, out
Near(x, y, t) == Abs(x - y) <= t
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Such(s, w, n, p) == IF w.r = "ok" /\ Len(w.v) = n /\ (\A k \in 1..n : Finite(w.v[k]) /\ w.v[k] # OFF) /\ p THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such integral">>)
TRAP == 0 SIMPSON == 1 BOOLE == 2 LEGENDRE == 3 HERMITE == 4 LAGUERRE == 5
Gauss(s) == s.m >= LEGENDRE
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE DownBy(_, _)
DownBy(k, d) == IF k <= 1 THEN 1 ELSE k * DownBy(k - d, d)
UpTo(n, k) == ((n + k - 1) \div k) * k
Rounded(m, n) == IF n > 12000 THEN n ELSE CASE m = SIMPSON -> UpTo(n, 3) [] m = BOOLE -> UpTo(n, 4) [] OTHER -> n
(* d times the integral of x^k over a rule's range, or its moment under the rule's weight     *)
Moment(s, d, k, lo, hi) ==
  CASE s.m = HERMITE -> IF k % 2 = 1 THEN 0 ELSE ExDiv(d * DownBy(k - 1, 2), Pow(2, k \div 2))      \* in units of the square root of pi
    [] s.m = LAGUERRE -> d * DownBy(k, 1)
    [] OTHER -> ExDiv(d * (Pow(hi, k + 1) - Pow(lo, k + 1)), k + 1)
Span(s, lo, hi) == IF s.m \in {HERMITE, LAGUERRE} THEN 1 ELSE hi - lo
(* limits: finite and in order, or the whole domain of a rule that has its own                 *)
Legal(s, lo, hi) ==
  CASE s.m = HERMITE -> lo = NINF /\ hi = INF
    [] s.m = LAGUERRE -> lo = 0 /\ hi = INF
    [] OTHER -> IF Finite(lo) /\ Finite(hi) THEN lo < hi
                ELSE s.m # LEGENDRE /\ lo # NAN /\ hi # NAN /\ lo # INF /\ hi # NINF
Bad(s, lims, idx) == (IF Gauss(s) THEN (IF s.n \in 1..30 THEN {} ELSE {"QuadratureOrderOutOfRange"}) ELSE IF s.n = 0 THEN {"IterationsZero"} ELSE {})
   \cup (IF \A i \in DOMAIN lims : Legal(s, lims[i][1], lims[i][2]) THEN {} ELSE {"LimitsIllDefined"})
   \cup (IF \A i \in DOMAIN idx : idx[i] \in 0..2 THEN {} ELSE {"IndexOutOfRange"})
(* "a zero count reports IterationsZero regardless of the limits"                               *)
Refuse(s, w, bad) == IF "IterationsZero" \in bad THEN Ret(s, "IterationsZero", <<>>) ELSE OneOf(s, w, bad)
Pairs(q) == [i \in 1..(Len(q) \div 2) |-> SubSeq(q, 2 * i - 1, 2 * i)]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
(* a composite rule's own weights, which also say what it makes of any other integrand          *)
Weight(m, n, i) == CASE m = TRAP -> IF i \in {0, n} THEN 1 ELSE 2
  [] m = SIMPSON -> IF i \in {0, n} THEN 1 ELSE IF i % 3 = 0 THEN 2 ELSE 3
  [] m = BOOLE -> IF i \in {0, n} THEN 7 ELSE IF i % 2 = 1 THEN 32 ELSE IF i % 4 = 0 THEN 14 ELSE 12
Value(c, x, h) == Sum([k \in 1..Len(c) |-> c[k] * Pow(x, k - 1) * Pow(h, Len(c) - k)])
Factor(m) == CASE m = TRAP -> 1 [] m = SIMPSON -> 3 [] m = BOOLE -> 2
Over(m) == CASE m = TRAP -> 2 [] m = SIMPSON -> 8 [] m = BOOLE -> 45
Accurate(s) == IF Gauss(s) THEN s.m = LEGENDRE /\ s.n >= 8 ELSE s.n >= 120
(* d times the integral of component i of an affine field along coordinate j of a curve           *)
PMulZ(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |-> Sum([i \in 1..Len(p) |-> IF k + 1 - i \in 1..Len(q) THEN p[i] * q[k + 1 - i] ELSE 0])]
Work(d, f, r, j, lo, hi) ==
  LET along == <<r[j][2], 2 * r[j][3]>>
      field == [k \in 1..3 |-> (IF k = 1 THEN f[1] ELSE 0) + Sum([i \in 1..Len(r) |-> f[i + 1] * r[i][k]])]
      p == PMulZ(field, along)
  IN Sum([k \in 1..Len(p) |-> ExDiv(d * p[k] * (Pow(hi, k) - Pow(lo, k)), k)])
Init == st = [m |-> BOOLE, n |-> 120] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "rule" -> \* which, how many steps or nodes, whether compensated sums are asked for
         LET n == IF a[1] < LEGENDRE THEN Rounded(a[1], a[2]) ELSE a[2] IN Ret([m |-> a[1], n |-> n], "ok", <<n>>)
    [] op = "one" -> \* factor, levels, limits of each, coefficients: inner level first
         LET L == Pairs(SubSeq(a, 3, 2 + 2 * a[2])) c == SubSeq(a, 3 + 2 * a[2], Len(a)) bad == Bad(s, L, <<>>) IN
         IF bad # {} THEN Refuse(s, w, bad)
         ELSE Ret(s, "ok", <<Sum([k \in 1..Len(c) |-> IF c[k] = 0 THEN 0 ELSE c[k] * Moment(s, a[1], k - 1, L[1][1], L[1][2])]) * Prod([i \in 1..(Len(L) - 1) |-> Span(s, L[i + 1][1], L[i + 1][2])])>>)
    [] op = "many" -> \* factor, levels, variable of each, limits of each, the point, terms of coefficient and three powers
         LET n == a[2] idx == SubSeq(a, 3, 2 + n) L == Pairs(SubSeq(a, 3 + n, 2 + 3 * n)) p == SubSeq(a, 3 + 3 * n, 5 + 3 * n)
             t == SubSeq(a, 6 + 3 * n, Len(a)) bad == Bad(s, L, idx)
             first(v) == SetMin({i \in 1..n : idx[i] = v - 1} \cup {99})          \* the innermost level a variable is integrated on
             one(q, v) == IF first(v) = 99 THEN Pow(p[v], q[v + 1]) ELSE Moment(s, 12, q[v + 1], L[first(v)][1], L[first(v)][2])
             used == Cardinality({v \in 1..3 : first(v) # 99})
             rest == Prod([i \in 1..n |-> IF first(idx[i] + 1) = i THEN 1 ELSE Span(s, L[i][1], L[i][2])]) IN
         IF bad # {} THEN Refuse(s, w, bad)
         ELSE Ret(s, "ok", <<Sum([j \in 1..(Len(t) \div 4) |-> LET q == SubSeq(t, 4 * j - 3, 4 * j) IN ExDiv(q[1] * a[1] * Prod([v \in 1..3 |-> one(q, v)]), Pow(12, used)) * rest])>>)
    [] op = "walk" -> \* lower limit and steps per unit, coefficients: any degree, over as many steps as the rule takes
         LET m == s.m n == s.n lo == a[1] h == a[2] c == SubSeq(a, 3, Len(a)) IN
         Ret(s, "ok", <<Factor(m) * Sum([i \in 1..(n + 1) |-> Weight(m, n, i - 1) * Value(c, lo * h + i - 1, h)])>>)    \* times Over(m) h^(degree + 1)
    [] op = "high" -> \* a power up to the class of a Gauss rule, and the range
         IF s.m = LEGENDRE THEN Ret(s, "ok", <<a[3] - a[2]>>)                    \* of ((x - lo) / (hi - lo))^k, times k + 1
         ELSE IF s.m = LAGUERRE THEN Ret(s, "ok", <<a[1]>>)                      \* the moment over the one before
         ELSE IF a[1] % 2 = 1 THEN Ret(s, "ok", <<0>>) ELSE Ret(s, "ok", <<a[1] - 1>>)   \* over the one two before, doubled
    [] op = "tail" -> \* up, down or both ways; where from; three coefficients; how many variables: inverse powers
         IF Bad(s, <<>>, <<>>) # {} THEN Refuse(s, w, Bad(s, <<>>, <<>>)) ELSE IF s.m = LEGENDRE \/ Gauss(s) THEN Ret(s, "LimitsIllDefined", <<>>)
         ELSE LET x == IF a[1] = 2 THEN RDiv(a[3] * 8 * PI4 + a[4] * 4 * PI4 + a[5] * 3 * PI4, 8) ELSE RDiv(ONE * (6 * a[3] + 3 * a[4] + 2 * a[5]), 6) IN
              Such(s, w, 1, Near(w.v[1], IF a[6] = 0 THEN x ELSE 4 * x, 20 * (1 + 3 * a[6])))
    [] op = "wave" -> \* the cosine over a range of quarters
         IF s.n = 0 \/ ~Accurate(s) THEN Such(s, w, 1, FALSE) ELSE Such(s, w, 1, Near(w.v[1], Sin4(2500 * a[2]) - Sin4(2500 * a[1]), 8))
    [] op = "broken" -> Ret(s, "NonFinite", <<>>)                               \* an integrand that fails past the middle
    [] op = "curve" -> \* factor, work or flux, dimension, steps (-1 as they come), range, the curve, the field
         LET d == a[1] n == a[3] lo == a[5] hi == a[6]
             r == [i \in 1..n |-> SubSeq(a, 4 + 3 * i, 6 + 3 * i)] f == [i \in 1..n |-> SubSeq(a, 7 + 3 * n + 4 * (i - 1), 6 + 3 * n + 4 * i)]
             bad == (IF a[4] = 0 THEN {"IterationsZero"} ELSE {}) \cup (IF Finite(lo) /\ Finite(hi) /\ lo < hi THEN {} ELSE {"LimitsIllDefined"})
             g(i, j) == Work(d, f[i], r, j, lo, hi) IN
         IF bad # {} THEN OneOf(s, w, bad)
         ELSE Ret(s, "ok", <<IF a[2] = 0 THEN Sum([i \in 1..n |-> g(i, i)]) ELSE IF n = 2 THEN g(1, 2) - g(2, 1) ELSE g(1, 1) - g(2, 2) - g(3, 3)>>)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
=======================================================================================
