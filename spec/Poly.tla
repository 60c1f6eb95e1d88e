------------------------------------- MODULE Poly -------------------------------------
(* A polynomial in one variable and one in two, each changed by any sequence of           *)
(* operations: exact algebra on whole numbers, and room for only so many coefficients.    *)
EXTENDS Fixed
VARIABLES st, out
CAP == 8
TERMS == 6
Near(x, y, t) == Abs(x - y) <= t
Get(p, k) == IF k \in 0..(Len(p) - 1) THEN p[k + 1] ELSE 0
RECURSIVE Trim(_)
Trim(p) == IF p = <<>> \/ p[Len(p)] # 0 THEN p ELSE Trim(SubSeq(p, 1, Len(p) - 1))
Deg(p) == Len(Trim(p)) - 1
To(p, n) == [k \in 1..n |-> Get(p, k - 1)]
RECURSIVE Horner(_, _)
Horner(p, x) == IF p = <<>> THEN 0 ELSE p[1] + x * Horner(Tail(p), x)
Add(p, q) == [k \in 1..MaxOf(Len(p), Len(q)) |-> Get(p, k - 1) + Get(q, k - 1)]
Mul(p, q) == IF Trim(p) = <<>> \/ Trim(q) = <<>> THEN <<>> ELSE LET x == Trim(p) y == Trim(q) IN
  TLCEval([k \in 1..(Len(x) + Len(y) - 1) |-> Sum([i \in 1..Len(x) |-> x[i] * Get(y, k - i)])])
RECURSIVE Comp(_, _)
Comp(p, q) == IF p = <<>> THEN <<>> ELSE TLCEval(Trim(Add(<<p[1]>>, Mul(q, Comp(Tail(p), q)))))
Diff(p) == IF Len(p) <= 1 THEN <<>> ELSE [k \in 1..(Len(p) - 1) |-> k * p[k + 1]]
RECURSIVE Diffs(_, _)
Diffs(p, n) == IF n = 0 THEN p ELSE TLCEval(Diffs(Diff(p), n - 1))
(* quotient and remainder; the divisor's leading coefficient divides every step            *)
RECURSIVE Divide(_, _)
Divide(p, d) == LET n == Deg(p) m == Deg(d) IN
  IF n < m THEN <<<<>>, Trim(p)>>
  ELSE LET s == ExDiv(p[n + 1], d[m + 1])
           r == Divide(TLCEval(Trim([k \in 1..n |-> p[k] - s * Get(d, k - 1 - (n - m))])), d) IN
       <<TLCEval(Add(r[1], Rep(n - m, 0) \o <<s>>)), r[2]>>
(* the area, times the least common multiple of one to eight                                *)
RECURSIVE Raise(_, _)
Raise(x, e) == IF e = 0 THEN 1 ELSE x * Raise(x, e - 1)
Area(p, lo, hi) == Sum([k \in 1..Len(p) |-> (840 \div k) * p[k] * (Raise(hi, k) - Raise(lo, k))])
RECURSIVE Product(_)
Product(roots) == IF roots = <<>> THEN <<1>> ELSE TLCEval(Mul(<<-Head(roots), 1>>, Product(Tail(roots))))
(* ---- terms <<coefficient, power, power>>; -1 stands for the largest power there is ------- *)
Lt(s, t) == \/ s[2] < t[2] \/ (s[2] = t[2] /\ s[3] < t[3]) \/ (s[2] = t[2] /\ s[3] = t[3] /\ s[1] < t[1])
Dump(m) == Flat(SortSeq(m, Lt))
Terms(a, i) == [k \in 1..((Len(a) - i + 1) \div 3) |-> <<a[i + 3 * k - 3], a[i + 3 * k - 2], a[i + 3 * k - 1]>>]
MEval(m, x, y) == Sum([k \in 1..Len(m) |-> m[k][1] * Raise(x, m[k][2]) * Raise(y, m[k][3])])
MDiff(m, i) == SelectSeq([k \in 1..Len(m) |-> IF m[k][i + 1] = 0 THEN <<>> ELSE [m[k] EXCEPT ![1] = @ * m[k][i + 1], ![i + 1] = @ - 1]], LAMBDA t : t # <<>>)
RECURSIVE Collect(_)
Collect(m) == IF m = <<>> THEN <<>> ELSE
  LET t == m[1] like(u) == u[2] = t[2] /\ u[3] = t[3]
      c == Sum([k \in 1..Len(m) |-> IF like(m[k]) THEN m[k][1] ELSE 0])
      rest == Collect(TLCEval(SelectSeq(m, LAMBDA u : ~like(u)))) IN IF c = 0 THEN rest ELSE <<<<c, t[2], t[3]>>>> \o rest
Cross(m, n) == Flat([i \in 1..Len(m) |-> [j \in 1..Len(n) |-> <<m[i][1] * n[j][1], m[i][2] + n[j][2], m[i][3] + n[j][3]>>]])
TooHigh(m, n) == \E i \in 1..Len(m), j \in 1..Len(n) : \E k \in 2..3 : (m[i][k] = -1 /\ n[j][k] # 0) \/ (n[j][k] = -1 /\ m[i][k] # 0)
Max(q) == IF q = <<>> THEN -1 ELSE SetMax({q[k] : k \in DOMAIN q})
(* ---- answers ------------------------------------------------------------------------------ *)
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Keep(s, p) == LET q == To(p, CAP) IN Ret([s EXCEPT !.p = q], "ok", <<Deg(q), IF Deg(q) < 0 THEN 0 ELSE q[Deg(q) + 1]>> \o q)
Fit(s, p, cap) == IF Deg(p) >= cap THEN Ret(s, "DegreeOverflow", <<>>) ELSE Keep(s, p)
Hold(s, m) == Ret([s EXCEPT !.m = m], "ok", Dump(m))
Such(s, w, n, p) == IF w.r = "ok" /\ Len(w.v) = n /\ (\A k \in 1..n : Finite(w.v[k]) /\ w.v[k] # OFF) /\ p THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<"no such result">>)
Or(s, w, bad, n, p) == IF bad # {} THEN OneOf(s, w, bad) ELSE Such(s, w, n, p)
Wild(q) == IF AllFinite(q) THEN {} ELSE {"NonFinite"}
Twice(q) == \E i, j \in DOMAIN q : i # j /\ q[i] = q[j]
Init == st = [p |-> Rep(CAP, 0), m |-> <<>>] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  LET p == s.p m == s.m IN
  CASE op = "set" -> Keep(s, a)
    [] op = "eval" -> Ret(s, "ok", [k \in 1..10 |-> Horner(Diffs(p, k - 1), a[1])])
    [] op = "add" -> Keep(s, Add(p, a))
    [] op = "sub" -> Keep(s, Add(p, [k \in 1..CAP |-> -a[k]]))
    [] op = "neg" -> Keep(s, [k \in 1..CAP |-> -p[k]])
    [] op = "scale" -> Keep(s, [k \in 1..CAP |-> a[1] * p[k]])
    [] op = "over" -> Keep(s, [k \in 1..CAP |-> ExDiv(p[k], a[1])])
    [] op = "mul" -> Fit(s, Mul(p, SubSeq(a, 2, Len(a))), a[1])
    [] op = "comp" -> Fit(s, Comp(Trim(p), SubSeq(a, 2, Len(a))), a[1])
    [] op = "div" -> LET d == SubSeq(a, 4, Len(a)) IN
         IF Deg(d) < 0 THEN Ret(s, "LeadingCoefficientZero", <<>>)
         ELSE LET r == Divide(p, d) IN IF Deg(r[1]) >= a[1] \/ Deg(r[2]) >= a[2] THEN Ret(s, "DegreeOverflow", <<>>)
              ELSE Ret([s EXCEPT !.p = To(r[a[3]], CAP)], "ok", To(r[1], a[1]) \o To(r[2], a[2]))
    [] op = "deriv" -> Keep(s, Diffs(p, a[1]))
    [] op = "area" -> Ret(s, "ok", <<Area(p, a[1], a[2])>>)
    [] op = "shift" -> Keep(s, Comp(Trim(p), <<a[1], 1>>))
    [] op = "stretch" -> Keep(s, [k \in 1..CAP |-> p[k] * Raise(a[1], k - 1)])
    [] op = "rev" -> Keep(s, [k \in 1..CAP |-> p[CAP + 1 - k]])
    [] op = "resize" -> IF Deg(p) >= a[1] THEN Ret(s, "none", <<>>) ELSE Ret(s, "ok", To(p, a[1]))
    [] op = "roots" -> LET q == SubSeq(a, 2, Len(a)) bad == Wild(q) \cup (IF Len(q) >= a[1] THEN {"DegreeOverflow"} ELSE {}) IN
         IF bad # {} THEN OneOf(s, w, bad) ELSE Keep(s, Product(q))
    [] op = "jet" -> IF Len(a) - 1 > a[1] THEN Ret(s, "DegreeOverflow", <<>>) ELSE Keep(s, Tail(a))
    [] op = "cheb" -> LET n == a[3] half == Abs(a[2] - a[1]) IN      \* twice, in ten-thousandths
         Such(s, w, n, \A k \in 1..n : Near(2 * w.v[k], ONE * (a[1] + a[2]) + (a[2] - a[1]) * Cos4(RDiv((2 * (n - k) + 1) * PI4, 2 * n)), 4 * half + 4))
    [] op = "points" -> LET n == Len(a) \div 2 xs == SubSeq(a, 1, n) ys == SubSeq(a, n + 1, 2 * n)
         bad == Wild(a) \cup (IF Twice(xs) THEN {"DuplicateNode"} ELSE {}) IN
         Or(s, w, bad, n, \A k \in 1..n : w.v[k] = 1000 * ys[k])
    [] op = "through" -> LET n == Len(a) \div 2 q == SubSeq(a, n + 1, 2 * n) IN      \* samples of a known polynomial
         IF Twice(SubSeq(a, 1, n)) THEN Ret(s, "DuplicateNode", <<>>) ELSE Ret(s, "ok", [k \in 1..n |-> 1000 * q[k]])
    [] op = "fit" -> LET n == a[1] k == (Len(a) - 1) \div 2 xs == SubSeq(a, 2, k + 1) ys == SubSeq(a, k + 2, 2 * k + 1)
         kinds == Cardinality({xs[i] : i \in 1..k})
         bad == Wild(Tail(a)) \cup (IF k < n THEN {"TooFewSamples"} ELSE {}) \cup (IF kinds = 1 THEN {"DuplicateNode"} ELSE {}) IN
         IF bad = {} /\ kinds < n THEN OneOf(s, w, {"Linalg(Singular)", "Linalg(RankDeficient)"})
         ELSE Or(s, w, bad, k, \A e \in 0..(n - 1) : Abs(Sum([i \in 1..k |-> w.v[i] * Raise(xs[i], e)])) <= Sum([i \in 1..k |-> Raise(Abs(xs[i]), e)]))
    [] op = "herm3" -> LET h == a[5] bad == Wild(a) \cup (IF Finite(h) /\ h <= 0 THEN {"SpanNotPositive"} ELSE {}) IN
         Or(s, w, bad, 4, LET c == w.v IN c[1] = a[1] /\ c[2] = a[2] * h /\ Sum(c) = a[3] /\ Horner(Diff(c), 1) = a[4] * h)
    [] op = "herm7" -> LET h == a[9] bad == Wild(a) \cup (IF Finite(h) /\ h <= 0 THEN {"SpanNotPositive"} ELSE {}) IN     \* sixfold coefficients
         Or(s, w, bad, 8, \A k \in 0..3 : LET q == Diffs(w.v, k) g == 6 * Raise(h, k) IN q[1] = a[k + 1] * g /\ Sum(q) = a[k + 5] * g)
    [] op = "fromuni" -> LET n == Cardinality({k \in 1..CAP : p[k] # 0}) IN
         IF n > a[1] THEN Ret(s, "CapacityExceeded", <<>>) ELSE Ret(s, "ok", Flat(SelectSeq([k \in 1..CAP |-> <<k - 1, p[k]>>], LAMBDA t : t[2] # 0)))
    [] op = "touni" -> LET ts == [k \in 1..((Len(a) - 1) \div 2) |-> <<a[2 * k], a[2 * k + 1]>>] IN      \* terms, then the room
         IF \E k \in 1..Len(ts) : ts[k][2] >= a[1] \/ ts[k][2] < 0 THEN Ret(s, "DegreeOverflow", <<>>)
         ELSE Ret(s, "ok", [j \in 1..a[1] |-> Sum([k \in 1..Len(ts) |-> IF ts[k][2] = j - 1 THEN ts[k][1] ELSE 0])])
    [] op = "mset" -> LET ts == Terms(a, 1) bad == (IF Len(ts) > TERMS THEN {"CapacityExceeded"} ELSE {}) \cup Wild([k \in 1..Len(ts) |-> ts[k][1]]) IN
         IF bad # {} THEN OneOf(s, w, bad) ELSE Hold(s, ts)
    [] op = "mpush" -> LET bad == (IF Len(m) >= TERMS THEN {"CapacityExceeded"} ELSE {}) \cup Wild(a) IN
         IF bad # {} THEN OneOf(s, w, bad) ELSE Hold(s, Append(m, a))
    [] op = "meval" -> LET top(i) == Max([k \in 1..Len(m) |-> m[k][i]]) IN
         Ret(s, "ok", <<MEval(m, a[1], a[2]), MEval(MDiff(m, 1), a[1], a[2]), MEval(MDiff(m, 2), a[1], a[2]), Len(m), Max([k \in 1..Len(m) |-> m[k][2] + m[k][3]]), top(2), top(3), -1>>)
    [] op = "mpart" -> IF a[1] > 1 THEN Ret(s, "VariableOutOfRange", <<>>) ELSE Hold(s, MDiff(m, a[1] + 1))
    [] op = "manti" -> LET i == a[1] + 2 IN      \* sixtyfold coefficients
         IF a[1] > 1 THEN Ret(s, "VariableOutOfRange", <<>>) ELSE IF \E k \in 1..Len(m) : m[k][i] = -1 THEN Ret(s, "DegreeOverflow", <<>>)
         ELSE Ret(s, "ok", Dump([k \in 1..Len(m) |-> [m[k] EXCEPT ![1] = (60 * @) \div (m[k][i] + 1), ![i] = @ + 1]]))
    [] op = "msub" -> LET i == a[1] + 2 IN IF a[1] > 1 THEN Ret(s, "VariableOutOfRange", <<>>)
         ELSE Hold(s, Collect([k \in 1..Len(m) |-> [m[k] EXCEPT ![1] = @ * Raise(a[2], m[k][i]), ![i] = 0]]))
    [] op = "madd" -> LET n == Terms(a, 2) IN IF Len(m) + Len(n) > a[1] THEN Ret(s, "CapacityExceeded", <<>>)
         ELSE LET r == Collect(m \o n) IN IF Len(r) <= TERMS THEN Hold(s, r) ELSE Ret(s, "ok", Dump(r))
    [] op = "mmul" -> LET n == Terms(a, 2) bad == (IF Len(m) * Len(n) > a[1] THEN {"CapacityExceeded"} ELSE {}) \cup (IF TooHigh(m, n) THEN {"DegreeOverflow"} ELSE {}) IN
         IF bad # {} THEN OneOf(s, w, bad) ELSE LET r == Collect(Cross(m, n)) IN IF Len(r) <= TERMS THEN Hold(s, r) ELSE Ret(s, "ok", Dump(r))
    [] op = "mcollect" -> Hold(s, Collect(m))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* ---- of the model: ring and calculus laws, over small operands ------------------------------ *)
Small == {<<>>, <<3>>, <<0, 1>>, <<-2, 0, 1>>, <<1, -1, 2, 1>>, <<0, 0, -3, 1>>}
Laws == \A p, q \in Small :
  /\ Trim(Mul(p, q)) = Trim(Mul(q, p))
  /\ Trim(Diff(Mul(p, q))) = Trim(Add(Mul(Diff(p), q), Mul(p, Diff(q))))
  /\ Trim(Diff(Comp(p, q))) = Trim(Mul(Comp(Diff(p), q), Diff(q)))
  /\ \A x \in -2..2 : Horner(Mul(p, q), x) = Horner(p, x) * Horner(q, x) /\ Horner(Comp(p, q), x) = Horner(p, Horner(q, x))
  /\ (Deg(q) >= 0 /\ q[Len(q)] = 1) => /\ Divide(Mul(p, q), q) = <<Trim(p), <<>>>>
                                       /\ LET d == Divide(p, q) IN Trim(Add(Mul(d[1], q), d[2])) = Trim(p) /\ Deg(d[2]) < Deg(q)
  /\ \A x \in -2..2 : Comp(Comp(p, <<x, 1>>), <<-x, 1>>) = Trim(p) /\ Area(Diff(p), x, 3) = 840 * (Horner(p, 3) - Horner(p, x))
=======================================================================================
