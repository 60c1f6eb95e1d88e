----------------------------------- MODULE Partials -----------------------------------
(* Derivatives of polynomial functions of several variables, entry by entry: exact for   *)
(* automatic differentiation; for finite differences the documented difference           *)
(* quotients, which whole-number steps make exact as well.                               *)
EXTENDS Fixed
VARIABLES st, out
Near(x, y, t) == Abs(x - y) <= t
(* a function is a sequence of terms <<c, e1, ..., en>>                                   *)
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE x * Pow(x, e - 1)
RECURSIVE Mono(_, _, _)
Mono(t, x, i) == IF i = 0 THEN t[1] ELSE IF t[i + 1] = 0 THEN Mono(t, x, i - 1) ELSE Pow(x[i], t[i + 1]) * Mono(t, x, i - 1)
Eval(f, x) == Sum([k \in 1..Len(f) |-> Mono(f[k], x, Len(x))])
Diff(f, i) == [k \in 1..Len(f) |-> IF f[k][i + 1] = 0 THEN [j \in 1..Len(f[k]) |-> 0] ELSE [f[k] EXCEPT ![1] = @ * f[k][i + 1], ![i + 1] = @ - 1]]
RECURSIVE Diffs(_, _)
Diffs(f, q) == IF q = <<>> THEN f ELSE TLCEval(Diffs(Diff(f, q[1]), Tail(q)))
(* the difference quotient's numerator: hi - lo at every level, steps hs                  *)
Lo(b) == IF b = 1 THEN 0 ELSE -1
Hi(b) == IF b = 2 THEN 0 ELSE 1
RECURSIVE Quot(_, _, _, _, _)
Quot(f, x, b, q, hs) == IF q = <<>> THEN Eval(f, x)
  ELSE Quot(f, [x EXCEPT ![q[1]] = @ + Hi(b) * hs[1]], b, Tail(q), Tail(hs)) - Quot(f, [x EXCEPT ![q[1]] = @ + Lo(b) * hs[1]], b, Tail(q), Tail(hs))
(* which level has which step is the differentiator's choice                              *)
Steps(h, m, k) == LET s == [i \in 1..k |-> h * Pow(m, i - 1)] IN {[i \in 1..k |-> s[p[i]]] : p \in {p \in [1..k -> 1..k] : \A i, j \in 1..k : i = j \/ p[i] # p[j]}}
(* partial by the variables q (counted from one) as backend b shows it: a set of possible values *)
Partial(f, x, b, h, m, q) == CASE b = 0 -> {Eval(Diffs(f, q), x)}
  [] OTHER -> {Quot(f, x, b, q, hs) : hs \in Steps(h, m, Len(q))}
(* the defaults: thousandths, within what rounding can do to them                          *)
Good(y, f, x, b, h, m, q) == IF b = 4 THEN Near(y, 1000 * Eval(Diffs(f, q), x), 60) ELSE y \in Partial(f, x, b, h, m, q)
BadStep(b, h) == IF b \in {0, 4} THEN {} ELSE IF h = 0 THEN {"StepSizeZero"} ELSE IF ~Finite(h) \/ h < 0 THEN {"InvalidStepSize"} ELSE {}
Terms(a, p, t, n) == [k \in 1..t |-> SubSeq(a, p + (k - 1) * (n + 1), p + k * (n + 1) - 1)]
OneOf(w, names) == IF w.r \in names THEN Ret(0, w.r, <<>>) ELSE Ret(0, CHOOSE x \in names : TRUE, <<>>)
Such(w, n, p) == IF w.r = "ok" /\ Len(w.v) = n /\ (\A k \in 1..n : w.v[k] # OFF) /\ p THEN Ret(0, "ok", w.v) ELSE Ret(0, "ok", <<"no such result">>)
Or(w, bad, n, p) == IF bad # {} THEN OneOf(w, bad) ELSE Such(w, n, p)
(* goodness of fit over points: twice the residuals (whole), then ten-thousandths           *)
Fit(v, f, pts, p, pred(_), z) ==
  LET n == Len(pts)
      ys == TLCEval([k \in 1..n |-> Eval(f, pts[k])])
      rs == TLCEval([k \in 1..n |-> pred(pts[k]) - 2 * ys[k]])
      big == \E k \in 1..n : Abs(ys[k]) > 60 \/ Abs(rs[k]) > 120
      abs == Sum([k \in 1..n |-> Abs(rs[k])])
      res == Sum([k \in 1..n |-> rs[k] * rs[k]])
      tot == n * Sum([k \in 1..n |-> ys[k] * ys[k]]) - Sum(ys) * Sum(ys)          \* n times the total
      ratio == RDiv(RDiv(res * 1000, 4) * n, tot)                                   \* thousandths of 1 - r2
      few == <<pts[1], pts[2]>> mae2 == Sum([k \in 1..2 |-> Abs(pred(few[k]) - 2 * Eval(f, few[k]))]) IN
  big \/ /\ Near(v[z + 1], RDiv(abs * 5000, n), 1)
         /\ Near(v[z + 2], RDiv(res * 2500, n), 1)
         /\ v[z + 3] >= 0 /\ LET q == v[z + 3] \div 10 c == q \div 10 IN IF q > 40000 THEN Near(c * c, v[z + 2], 3 * c + 3) ELSE Near(q * q, v[z + 2] * 100, 2 * q + ((2 * q) \div 10) + 120)
         /\ IF tot = 0 THEN v[z + 4] = NAN /\ v[z + 5] = NAN
            ELSE /\ (((res * 1000) \div 4) > (200000000 \div n)) \/ Near(v[z + 4], ONE - 10 * ratio, 12)
                 /\ IF n - p - 1 <= 0 THEN v[z + 5] = NAN
                    ELSE (((res * 1000) \div 4) > (20000000 \div n)) \/ Near(v[z + 5], ONE - RDiv(10 * ratio * (n - 1), n - p - 1), 12 * (n - 1))
         /\ Near(v[z + 6], RDiv(mae2 * 5000, 2), 1)
         /\ v[z + 7] = NAN
Init == st = 0 /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  IF op = "d1" THEN LET b == a[1] k == a[2] t == a[5] f == Terms(a, 6, t, 1) x == <<a[6 + 2 * t]>>
       bad == (IF k = 0 THEN {"OrderZero"} ELSE {}) \cup BadStep(b, a[3]) \cup (IF b = 0 /\ k > 6 THEN {"OrderUnsupported"} ELSE {}) IN
       Or(w, bad, 1, Good(w.v[1], f, x, b, a[3], a[4], Rep(k, 1)))
  ELSE
  LET n == a[1] b == a[2] h == a[3] m == a[4] IN
  CASE op = "dn" -> LET k == a[5] q == [i \in 1..k |-> a[5 + i] + 1] t == a[6 + k] f == Terms(a, 7 + k, t, n) x == SubSeq(a, 7 + k + t * (n + 1), 6 + k + t * (n + 1) + n)
         bad == (IF k = 0 THEN {"OrderZero"} ELSE {}) \cup BadStep(b, h) \cup (IF b = 0 /\ k > 3 THEN {"OrderUnsupported"} ELSE {}) \cup (IF \E i \in 1..k : q[i] > n THEN {"IndexOutOfRange"} ELSE {}) IN
         Or(w, bad, 1, Good(w.v[1], f, x, b, h, m, q))
    [] op = "hess" -> LET t == a[5] f == Terms(a, 6, t, n) x == SubSeq(a, 6 + t * (n + 1), 5 + t * (n + 1) + n) IN
         Or(w, BadStep(b, h), n * n, \A i \in 1..n, j \in 1..n : Good(w.v[n * (i - 1) + j], f, x, b, h, m, <<i, j>>))
    [] op = "jac" -> LET e == a[6] t == a[7] x == SubSeq(a, 8 + e * t * (n + 1), 7 + e * t * (n + 1) + n)
         bad == BadStep(b, h) \cup (IF e = 0 THEN {"EmptyFunctionSet"} ELSE {}) IN
         Or(w, bad, e * n, \A i \in 1..e, j \in 1..n : Good(w.v[n * (i - 1) + j], Terms(a, 8 + (i - 1) * t * (n + 1), t, n), x, b, h, m, <<j>>))
    [] op = "col" -> LET c == a[5] + 1 t == a[6] x == SubSeq(a, 7 + 3 * t * (n + 1), 6 + 3 * t * (n + 1) + n)
         bad == BadStep(b, h) \cup (IF c > n THEN {"IndexOutOfRange"} ELSE {}) IN
         Or(w, bad, 3, \A i \in 1..3 : Good(w.v[i], Terms(a, 7 + (i - 1) * t * (n + 1), t, n), x, b, h, m, <<c>>))
    [] op = "field" -> LET e == a[5] t == a[6] x == SubSeq(a, 7 + e * t * (n + 1), 6 + e * t * (n + 1) + n)
         f(i) == Terms(a, 7 + (i - 1) * t * (n + 1), t, n)
         g(i, j) == IF b = 4 THEN 1000 * Eval(Diff(f(i), j), x) ELSE CHOOSE y \in Partial(f(i), x, b, h, m, <<j>>) : TRUE
         want == IF e = 2 THEN <<g(2, 1) - g(1, 2), g(1, 1) + g(2, 2)>>
                 ELSE <<g(3, 2) - g(2, 3), g(1, 3) - g(3, 1), g(2, 1) - g(1, 2), g(1, 1) + g(2, 2) + g(3, 3)>> 
         bad == BadStep(b, h) \cup (IF e > n THEN {"IndexOutOfRange"} ELSE {}) IN
         Or(w, bad, Len(want), \A k \in 1..Len(want) : Near(w.v[k], want[k], IF b = 4 THEN 100 ELSE 0))
    [] op = "model" -> LET quad == a[5] t == a[7] f == Terms(a, 8, t, n) p0 == 7 + t * (n + 1) x == SubSeq(a, p0 + 1, p0 + n) y == SubSeq(a, p0 + n + 1, p0 + 2 * n)
         pts == [k \in 1..6 |-> SubSeq(a, p0 + (k + 1) * n + 1, p0 + (k + 2) * n)]
         g == TLCEval([i \in 1..n |-> Eval(Diff(f, i), x)]) hs == TLCEval([i \in 1..n |-> [j \in 1..n |-> Eval(Diffs(f, <<i, j>>), x)]])
         c == Eval(f, x)
         d(z) == [i \in 1..n |-> z[i] - x[i]]
         pred(z) == 2 * c + 2 * Dot(g, d(z)) + (IF quad = 1 THEN Sum([i \in 1..n |-> d(z)[i] * Dot(hs[i], d(z))]) ELSE 0)    \* twice the prediction
         np == IF quad = 1 THEN n + (n * (n + 1)) \div 2 ELSE n
         head == x \o g \o (IF quad = 1 THEN Flat(hs) ELSE <<c - Dot(g, x)>>) \o <<pred(y), 2 * c>> IN
         Or(w, {}, Len(head) + 7, SubSeq(w.v, 1, Len(head)) = head /\ Fit(w.v, f, pts, np, pred, Len(head)))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* ---- of the model: differences of low degree are derivatives, orders of differentiation commute ---- *)
Low == LET f == <<<<3, 2, 0>>, <<-2, 1, 1>>, <<1, 0, 1>>, <<4, 0, 2>>>> IN \A p \in {-1, 2}, q \in {0, 3}, h \in 1..3 :
  /\ \A i \in 1..2 : Quot(f, <<p, q>>, 3, <<i>>, <<h>>) = 2 * h * Eval(Diff(f, i), <<p, q>>)
  /\ \A i \in 1..2, j \in 1..2 : Quot(f, <<p, q>>, 1, <<i, j>>, <<h, 1>>) = h * Eval(Diffs(f, <<i, j>>), <<p, q>>) /\ Eval(Diffs(f, <<i, j>>), <<p, q>>) = Eval(Diffs(f, <<j, i>>), <<p, q>>)
=======================================================================================
