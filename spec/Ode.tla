-------------------------------------- MODULE Ode ---------------------------------------
(* Initial-value problems whose solutions are known exactly, and what a solver must make  *)
(* of them: where its steps may lie, how long they may be, when it may give up, and what   *)
(* it must return.  Step settings are in sixty-fourths, other times whole or in quarters.  *)
EXTENDS Rot
VARIABLES st, out
Near(x, y, t) == Abs(x - y) <= t
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
(* sixty times the change of a solution of y' = c1 + c2 t + ..., t in units of 1/g             *)
Change(c, lo, hi, g, d) == Sum([k \in 1..Len(c) |-> IF c[k] = 0 THEN 0 ELSE ExDiv(d * c[k] * (Pow(hi, k) - Pow(lo, k)), k * Pow(g, k))])
Degree(c) == IF \E k \in DOMAIN c : c[k] # 0 THEN SetMax({k \in DOMAIN c : c[k] # 0}) - 1 ELSE 0
Quarter(y, n) == CASE n % 4 = 0 -> y [] n % 4 = 1 -> <<-y[2], y[1]>> [] n % 4 = 2 -> <<-y[1], -y[2]>> [] n % 4 = 3 -> <<y[2], -y[1]>>
POWERS == 0 TURNING == 1 BROKEN == 2 KINKED == 3
(* what becomes of a problem by a time: factor, problem, start, time                            *)
Ends(q, lo, hi, g, d) ==
  CASE q[1] = POWERS -> <<d * q[2] + Change(SubSeq(q, 4, 8), lo, hi, g, d), d * q[3] + Change(SubSeq(q, 9, 13), lo, hi, g, d)>>
    [] q[1] = TURNING -> [i \in 1..2 |-> d * Quarter(<<q[2], q[3]>>, q[4] * ((hi - lo) \div g))[i]]
    [] q[1] = KINKED -> LET c == q[4] * g f(x) == IF x < c THEN x ELSE 2 * c - x IN <<d * q[2] + ExDiv(d * (f(hi) - f(lo)), g), d * q[3]>>
Easy(q) == q[1] = POWERS /\ Degree(SubSeq(q, 4, 8)) <= 3 /\ Degree(SubSeq(q, 9, 13)) <= 3
Smooth(q) == q[1] \in {POWERS, TURNING}
(* settings: first, smallest and largest step (0: none given), the budget                        *)
Wilful(c) == (c.first > 0 /\ c.first < c.min) \/ (c.max > 0 /\ c.max < c.min)
Steps(c, q, span) == (IF c.max > 0 THEN (64 * span) \div c.max ELSE 0) + 60 + span * (IF Easy(q) THEN 60 ELSE 1500) + (IF c.first > 0 THEN 10 ELSE 0)
Must(c, q, span) == Smooth(q) /\ c.budget >= Steps(c, q, span) /\ (c.min = 0 \/ (Easy(q) /\ ~Wilful(c)))
Excuses(c) == {"DidNotConverge"} \cup (IF c.min > 0 THEN {"StepSizeTooSmall"} ELSE {})
(* what is seen of the steps: evaluations, steps, six facts, then lengths of the longest, the      *)
(* shortest but the last and the first, in hundredths of a setting's unit                          *)
Paced(c, v, q, span) ==
  /\ v[1] <= 6 * c.budget + 2 /\ v[2] \in 1..c.budget
  /\ \A k \in 3..8 : v[k] = 1        \* from the start; without a gap; forward all the way; to the very end; in every value; dense output joins them
  /\ (c.max > 0 => v[9] <= 100 * c.max + 1) /\ v[9] <= 6400 * span + 1
  /\ (c.min > 0 /\ c.first = 0 /\ ~Wilful(c) /\ v[2] > 1) => v[10] >= 100 * c.min - 1
  /\ (Easy(q) /\ c.first > 0) => Near(v[11], 100 * MinOf(c.first, MinOf(IF c.max > 0 THEN c.max ELSE c.first, 64 * span)), 1)
(* ---- derivatives of the solution of a polynomial system, by total differentiation ---------------- *)
Choose(n, k) == LET RECURSIVE g(_) g(i) == IF i = 0 THEN 1 ELSE (g(i - 1) * (n - i + 1)) \div i IN g(k)
EMul(x, y) == TLCEval([n \in 1..Len(x) |-> Sum([i \in 1..n |-> Choose(n - 1, i - 1) * x[i] * y[n + 1 - i]])])
RECURSIVE EPow(_, _)
EPow(x, n) == IF n = 0 THEN [i \in 1..Len(x) |-> IF i = 1 THEN 1 ELSE 0] ELSE EMul(x, EPow(x, n - 1))
Field(t, u, x, y) == LET n == Len(u) term(m) == LET p == EMul(EMul(EPow(u, m[2]), EPow(x, m[3])), EPow(y, m[4])) IN [i \in 1..n |-> m[1] * p[i]]
                         all == TLCEval([j \in 1..Len(t) |-> TLCEval(term(t[j]))]) IN [i \in 1..n |-> Sum([j \in 1..Len(t) |-> all[j][i]])]
RECURSIVE Jets(_, _, _, _, _, _)
Jets(f, g, t, x, y, n) == IF Len(x) = n THEN <<x, y>> ELSE
  LET u == [i \in 1..Len(x) |-> IF i = 1 THEN t ELSE IF i = 2 THEN 1 ELSE 0] a == Field(f, u, x, y) b == Field(g, u, x, y) IN Jets(f, g, t, Append(x, a[Len(x)]), Append(y, b[Len(x)]), n)
Fours(q) == [i \in 1..(Len(q) \div 4) |-> SubSeq(q, 4 * i - 3, 4 * i)]
(* twice the order of each method, in hundredths, less what rounding and luck may take                *)
Order == <<350, 450, 170>>
Init == st = [rtol |-> 6, first |-> 0, min |-> 0, max |-> 0, budget |-> 100000] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "set" -> \* tolerance as a power of ten, first, smallest and largest step, budget, power of two of the time unit
         Ret([rtol |-> a[1], first |-> a[2], min |-> a[3], max |-> a[4], budget |-> a[5]], "ok", <<>>)
    [] op = "go" -> \* start, end, factor, problem
         LET lo == a[1] hi == a[2] d == a[3] q == SubSeq(a, 4, Len(a)) span == Abs(hi - lo) IN
         IF ~Finite(lo) \/ ~Finite(hi) THEN Ret(s, "LimitsIllDefined", <<>>)
         ELSE IF lo = hi THEN Ret(s, "LimitsIllDefined", <<>>)
         ELSE IF q[1] = BROKEN THEN OneOf(s, w, {"NonFinite"} \cup (IF s.budget >= Steps(s, q, span) /\ s.min = 0 THEN {} ELSE Excuses(s)))
         ELSE IF w.r # "ok" /\ ~Must(s, q, span) THEN OneOf(s, w, Excuses(s))
         ELSE IF w.r = "ok" /\ Len(w.v) = 13 /\ (\A k \in 1..13 : w.v[k] # OFF) /\ Paced(s, w.v, q, span) /\ SubSeq(w.v, 12, 13) = Ends(q, lo, hi, 1, d) THEN Ret(s, "ok", w.v)
         ELSE Ret(s, "ok", Ends(q, lo, hi, 1, d))
    [] op = "grid" -> \* start, factor, slots more or less than times, how many times in quarters, times, problem
         LET lo == 4 * a[1] d == a[2] n == a[4] T == SubSeq(a, 5, 4 + n) q == SubSeq(a, 5 + n, Len(a)) hi == T[n] span == Abs(hi - lo) \div 4 + 1
             inOrder == \A i \in 1..n : Finite(T[i]) /\ (IF hi > lo THEN T[i] >= (IF i = 1 THEN lo ELSE T[i - 1]) ELSE T[i] <= (IF i = 1 THEN lo ELSE T[i - 1])) IN
         IF a[3] # 0 /\ n + a[3] >= 0 THEN Ret(s, "LimitsIllDefined", <<>>)
         ELSE IF n = 0 THEN Ret(s, "ok", <<>>)
         ELSE IF ~inOrder \/ hi = lo THEN OneOf(s, w, {"LimitsIllDefined"} \cup (IF Finite(hi) /\ hi # lo THEN Excuses(s) ELSE {}))
         ELSE IF w.r # "ok" /\ ~Must(s, q, span) THEN OneOf(s, w, Excuses(s))
         ELSE Ret(s, "ok", Flat([i \in 1..n |-> Ends(q, lo, T[i], 4, d)]))
    [] op = "fixed" -> \* the classic method: start, factor, steps, step in quarters, problem: nodes, four facts, the end
         LET lo == 4 * a[1] q == SubSeq(a, 5, Len(a)) IN Ret(s, "ok", <<a[3] + 1, 1, 1, 1, 1>> \o Ends(q, lo, lo + a[3] * a[4], 4, a[2]))
    [] op = "taylor" -> \* one classic step, as a series in its length: start, values, terms of both fields: derivatives at the start
         LET n == a[4] f == Fours(SubSeq(a, 5, 4 + 4 * n)) g == Fours(SubSeq(a, 5 + 4 * n, Len(a))) j == Jets(f, g, a[1], <<a[2]>>, <<a[3]>>, 5) IN Ret(s, "ok", j[1] \o j[2])
    [] op = "order" -> \* which method, which problem, parameters: how fast errors shrink as steps halve
         IF w.r = "ok" /\ Len(w.v) = 1 /\ w.v[1] >= Order[a[1] + 1] THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<Order[a[1] + 1]>>)
    [] op = "turn" -> \* whole quaternion, axis, twelfths by rate and by acceleration, step in quarters: one step
         Ret(s, "ok", MM(QMat(SubSeq(a, 1, 4)), Turn(SubSeq(a, 5, 7), a[8] + a[9])))
    [] op = "attitude" -> \* as above, then how many steps, their length in quarters, the node from which rates fail (-1 none): nodes, three facts, the end
         LET n == a[10] IN
         IF ~Finite(a[11]) THEN Ret(s, "NonFinite", <<>>) ELSE IF a[11] <= 0 THEN Ret(s, "NonPositiveTimestep", <<>>)
         ELSE IF a[12] >= 0 /\ a[12] < n THEN Ret(s, "NonFinite", <<>>)
         ELSE Ret(s, "ok", <<n + 1, 1, 1, 1>> \o MM(QMat(SubSeq(a, 1, 4)), IF n = 0 THEN Id3 ELSE Turn(SubSeq(a, 5, 7), a[8] + a[9])))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
=======================================================================================
