-------------------------------------- MODULE Cloud --------------------------------------
(* A weighted population: particles in 4096ths, weights as powers of two (exponents relative *)
(* to the heaviest), and the random draws handed in by the caller, in 4096ths (4096 standing *)
(* for the largest draw below one) and, for normal draws, in quarters.                        *)
EXTENDS FMat
VARIABLES st, out
Z == -99999                     \* a weight that has become nought
V == -88888                     \* one too small to show, of no known size
Scale == 4096
P(e) == IF e < -60 THEN 0 ELSE 2 ^ (10 + e)
Ps(s) == TLCEval([i \in 1..s.n |-> P(s.e[i])])
RECURSIVE Run(_, _)
Run(q, k) == IF k = 0 THEN 0 ELSE q[k] + Run(q, k - 1)
Cums(q) == TLCEval([i \in 1..Len(q) |-> Run(q, i)])
(* ---- picks: shares q, places pos out of den; those whose stretch of the line holds the place  *)
Hits(q, pos, den, slack) == LET c == Cums(q) t == c[Len(q)] IN {i \in 1..Len(q) : q[i] > 0 /\ (c[i] - q[i]) * den <= pos * t + slack /\ pos * t <= c[i] * den + slack}
(* a draw of 4096 is anything up to one: the place may be the next stretch's first                 *)
Draw(u, k) == IF k <= Len(u) THEN u[k] ELSE 2049
Spaced(q, u, shared, slack) == LET n == Len(q) IN TLCEval([j \in 1..n |-> Hits(q, Draw(u, IF shared THEN 1 ELSE j) + (j - 1) * 4096, n * 4096, slack)])
Thrown(q, u, from, m, slack) == TLCEval([j \in 1..m |-> Hits(q, Draw(u, j), 4096, slack)])
Sure(q) == LET n == Len(q) t == Sum(q) RECURSIVE g(_) g(i) == IF i > n THEN <<>> ELSE [k \in 1..((n * q[i]) \div t) |-> i] \o g(i + 1) IN TLCEval(g(1))
Choices(scheme, q, u, slack) ==
  CASE scheme = 0 -> [at |-> Spaced(q, u, TRUE, slack), used |-> 1]
    [] scheme = 1 -> [at |-> Spaced(q, u, FALSE, slack), used |-> Len(q)]
    [] scheme = 2 -> [at |-> Thrown(q, u, 1, Len(q), slack), used |-> Len(q)]
    [] OTHER -> LET w == Sure(q) t == TLCEval(Sum(q)) m == Len(q) - Len(w) rest == TLCEval([i \in 1..Len(q) |-> (Len(q) * q[i]) % t]) IN
         [at |-> TLCEval([j \in 1..Len(w) |-> {w[j]}]) \o (IF m = 0 THEN <<>> ELSE Thrown(rest, u, 1, m, slack)), used |-> m]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* ---- what is seen: particles, weights in hundred-thousandths, draws used --------------------- *)
Weigh(s) == LET q == Ps(s) t == TLCEval(Sum(q)) IN TLCEval([i \in 1..s.n |-> RDiv(q[i] * 100000, t)])
Places(s) == TLCEval([k \in 1..(2 * s.n) |-> s.X[(k + 1) \div 2][((k - 1) % 2) + 1]])
Like(s, v, tol) == Len(v) = 3 * s.n /\ Finites(v) /\ (LET q == Places(s) IN \A k \in 1..(2 * s.n) : Near(v[k], q[k], tol)) /\ (LET q == Weigh(s) IN \A i \in 1..s.n : Near(v[2 * s.n + i], q[i], 2))
Adopt(s, v) == [s EXCEPT !.X = [i \in 1..s.n |-> <<v[2 * i - 1], v[2 * i]>>]]
TooFar(s) == \E i \in 1..s.n : Abs(s.X[i][1]) > 800000 \/ Abs(s.X[i][2]) > 800000
(* settle on the expected population t, or on what was seen of it                                 *)
Show(t, w, extra, tol) ==
  IF w.r = "ok" /\ Len(w.v) = 3 * t.n + Len(extra) /\ Like(t, SubSeq(w.v, 1, 3 * t.n), tol) /\ SubSeq(w.v, 3 * t.n + 1, Len(w.v)) = extra
  THEN LET u == Adopt(t, w.v) IN Ret([u EXCEPT !.lost = TooFar(u)], "ok", w.v)
  ELSE Ret([t EXCEPT !.lost = TooFar(t)], "ok", Places(t) \o Weigh(t) \o extra)
AnyOk(s, w) == Ret([s EXCEPT !.lost = TRUE], IF w = NoW THEN "ok" ELSE w.r, w.v)
(* particles jittered along each axis by a share of its reach                                      *)
RECURSIVE Jitter(_, _, _)
Jitter(s, z, axis) == IF axis = 3 \/ s.rough <= 0 THEN [s |-> s, z |-> z] ELSE
  LET x == {s.X[i][axis] : i \in 1..s.n} reach == SetMax(x) - (CHOOSE l \in x : \A y \in x : l <= y) IN
  IF reach = 0 THEN Jitter(s, z, axis + 1)
  ELSE The({Jitter(t, SubSeq(z, s.n + 1, Len(z)), axis + 1) : t \in {[s EXCEPT !.X = TLCEval([i \in 1..s.n |-> [s.X[i] EXCEPT ![axis] = @ + RDiv(s.rough * reach * (IF i <= Len(z) THEN z[i] ELSE 0), 16)]])]}})
NormalsUsed(s, t) == IF s.rough <= 0 THEN 0 ELSE s.n * Cardinality({a \in 1..2 : Cardinality({t.X[i][a] : i \in 1..s.n}) > 1})
Even(s) == [s EXCEPT !.e = [i \in 1..s.n |-> 0]]
Shared(s) == LET q == Ps(s) t == TLCEval(Sum(q)) IN s.scheme = 3 /\ \E i \in 1..s.n : q[i] > 0 /\ (s.n * q[i]) % t = 0
Fresh(s, w, u, z) ==
  LET q == Ps(s) IN
  IF Shared(s) THEN AnyOk(s, w)
  ELSE The({IF \E j \in 1..s.n : c.at[j] = {} THEN AnyOk(s, w)
      ELSE IF \A j \in 1..s.n : Cardinality(c.at[j]) = 1
      THEN The({Show(Jitter(t, z, 1).s, w, <<c.used, NormalsUsed(s, t)>>, IF s.rough > 0 THEN 1 ELSE 0) : t \in {Even([s EXCEPT !.X = TLCEval([j \in 1..s.n |-> s.X[Least(c.at[j])]])])}})
      ELSE IF s.rough > 0 \/ w.r # "ok" \/ Len(w.v) # 3 * s.n + 2 THEN AnyOk(s, w)
      ELSE IF \A j \in 1..s.n : \E i \in c.at[j] : s.X[i] = <<w.v[2 * j - 1], w.v[2 * j]>> THEN Show(Even(Adopt(s, w.v)), w, <<c.used, 0>>, 0)
      ELSE Show(Even([s EXCEPT !.X = TLCEval([j \in 1..s.n |-> s.X[Least(c.at[j])]])]), w, <<c.used, 0>>, 0)
    : c \in {Choices(s.scheme, q, u, IF s.n * Sum(q) > 100 THEN (4096 * s.n * Sum(q)) \div 300000 ELSE 0)}})
(* after weighing anew: resampled when too few carry the weight                                     *)
Settle(s, w, u, z) ==
  LET q == Ps(s) t == TLCEval(Sum(q)) sq == TLCEval(Sum([i \in 1..s.n |-> q[i] * q[i]])) l == t * t * 8 r == s.thr * sq IN
  IF Abs(l - r) <= l \div 20000 THEN (IF w.r = "ok" /\ Len(w.v) = 3 * s.n + 2 /\ Like(s, SubSeq(w.v, 1, 3 * s.n), 0) THEN Show(s, w, SubSeq(w.v, 3 * s.n + 1, Len(w.v)), 0) ELSE Fresh(s, w, u, z))
  ELSE IF l < r THEN Fresh(s, w, u, z) ELSE Show(s, w, <<0, 0>>, 0)
(* scores in powers of two                                                                          *)
Score(s, w, sc, u, z) ==
  IF \E i \in 1..s.n : sc[i] \in {NAN, INF} THEN Ret(s, "WeightsDegenerate", <<>>)
  ELSE LET live == {i \in 1..s.n : s.e[i] > V /\ sc[i] # NINF} hazy == {i \in 1..s.n : s.e[i] = V /\ sc[i] # NINF} gone == {i \in 1..s.n : s.e[i] = Z /\ sc[i] # NINF} IN
    IF live # {} THEN
      LET top == TLCEval(SetMax({s.e[i] + sc[i] : i \in live}))
          t == [s EXCEPT !.e = TLCEval([i \in 1..s.n |-> IF i \in live THEN s.e[i] + sc[i] - top ELSE IF sc[i] = NINF THEN Z ELSE V])] IN
      \* those thought negligible may catch up with a front that fares badly
      IF (top < -8 /\ \E i \in 1..s.n : s.e[i] <= V /\ sc[i] # NINF) \/ \E i \in live : s.e[i] + sc[i] - top < -10 THEN AnyOk(s, w) ELSE Settle(TLCEval(t), w, u, z)
    ELSE IF hazy # {} THEN AnyOk(s, w)
    ELSE IF gone = {} THEN Ret(s, "WeightsDegenerate", <<>>)
    ELSE LET top == TLCEval(SetMax({sc[i] : i \in gone})) IN
      IF \E i \in gone : sc[i] - top < -10 THEN AnyOk(s, w) ELSE Settle([s EXCEPT !.e = TLCEval([i \in 1..s.n |-> IF i \in gone THEN sc[i] - top ELSE Z])], w, u, z)
(* lists inside a list: a length, then that many                                                     *)
List(a, k) == SubSeq(a, k + 1, k + a[k])
After(a, k) == k + a[k] + 1
Kick(L, z1, z2) == <<RDiv(L[1] * z1 * 128, 1), RDiv((L[2] * z1 + L[3] * z2) * 128, 1)>>            \* eighths by quarters, in 4096ths
Bad(L) == L[1] = 0 \/ L[3] = 0
Nth(z, k) == IF k <= Len(z) THEN z[k] ELSE 0
(* ---- a localizer: how far one side's scan falls short of the readings, in halvings -------------- *)
Beam(x, m) == LET seen == Finite(m) /\ m >= 1 /\ m <= 12 IN IF x # NINF /\ seen THEN -((x - m) * (x - m)) ELSE IF x = NINF /\ ~seen THEN 1 ELSE -3
Beams(a, k) == TLCEval(Sum([i \in 1..3 |-> Beam(a[k + i], a[9 + i])]))
Halvings(k) == IF k > 12 THEN 0 ELSE 2 ^ (12 - k)
Scanned(s, a, w) ==
  LET n == a[1] r == Beams(a, 3) l == Beams(a, 6) p == Halvings((IF r < l THEN l - r ELSE 0)) q == Halvings((IF l < r THEN r - l ELSE 0)) IN
  IF w.r # "ok" \/ Len(w.v) # 4 \/ w.v[1] < 0 \/ w.v[1] > n THEN Ret(s, "ok", <<0, 100 * n, 0, n>>)
  ELSE LET k == w.v[1] m == n - k hi == (k * p + m * q) IN
    IF hi = 0 \/ (k * p * 50 < m * q /\ k > 0 /\ p = 0) \/ (m * q * 50 < k * p /\ m > 0 /\ q = 0) \/ hi < 4096 THEN
         Ret(s, "ok", <<k, IF w.v[2] <= 100 * n + 1 THEN w.v[2] ELSE 100 * n, w.v[3], n>>)          \* too far apart to be counted in halvings
    ELSE LET pp == (p * p) \div 4096 qq == (q * q) \div 4096 sq == k * pp + m * qq
 IN
         The({LET few == l2 * 2 < n * 100 edge == Abs(l2 * 2 - n * 100) <= n + 20
                  stay == <<k, w.v[2], k, n>> = w.v /\ Near(w.v[2], l2, 2 + l2 \div 100)
                  swap == w.v[2] = 100 * n /\ w.v[3] >= 0 /\ w.v[3] <= n /\ (k = 0 => w.v[3] = 0) /\ (m = 0 => w.v[3] = n) /\ w.v[4] = n IN
              Ret(s, "ok", IF (few \/ edge) /\ swap THEN w.v ELSE IF (edge \/ ~few) /\ stay THEN w.v ELSE <<k, IF few THEN 100 * n ELSE l2, IF few THEN RDiv(n * k * p, hi) ELSE k, n>>)
            : l2 \in {((hi * 100) \div sq) * (hi \div 4096) + ((((hi * 100) % sq) * (hi \div 4096)) \div sq) + (((hi % 4096) * ((hi * 100) \div sq)) \div 4096)}})
Across(h) == IF h = 0 THEN 1 ELSE IF h = 2 THEN -1 ELSE 0
RECURSIVE Walk(_, _, _, _, _)
Walk(a, k, x, y, h) == IF k > Len(a) THEN <<x, y, Across(h), Across((h + 3) % 4)>> ELSE IF ~Finite(a[k]) THEN <<>> ELSE Walk(a, k + 2, x + a[k] * Across(h), y + a[k] * Across((h + 3) % 4), (h + a[k + 1] + 4) % 4)
Init == st = [n |-> 0, X |-> <<>>, e |-> <<>>, L |-> <<8, 0, 8>>, scheme |-> 0, thr |-> 0, rough |-> 0, lost |-> TRUE] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "pick" -> \* scheme, shares in 1024ths, draws
         LET q == TLCEval(List(a, 2)) u == List(a, After(a, 2)) n == Len(q) IN
         IF n = 0 THEN Ret(s, "ok", <<0>>)
         ELSE The({IF w.r = "ok" /\ Len(w.v) = n + 1 /\ w.v[n + 1] = c.used /\ (\A j \in 1..n : w.v[j] + 1 \in c.at[j]) THEN Ret(s, "ok", w.v)
                   ELSE Ret(s, "ok", [j \in 1..n |-> Least(c.at[j]) - 1] \o <<c.used>>) : c \in {Choices(a[1], q, u, 0)}})
    [] op = "gauss" -> \* how well a residual in eighths fits a noise [[p, q], [q, r]] in eighths
         LET d == a[1] * a[3] - a[2] * a[2] x == a[4] y == a[5] IN
         IF a[1] > 0 /\ d = 0 THEN Ret(s, IF w = NoW THEN "ok" ELSE w.r, w.v) \* singular but for rounding
         ELSE IF a[1] <= 0 \/ d < 0 THEN Ret(s, "NotPositiveDefinite", <<>>)
         ELSE LET e == -RDiv((a[3] * x * x - 2 * a[2] * x * y + a[1] * y * y) * 625, d) IN IF w.r = "ok" /\ Len(w.v) = 1 /\ Near(w.v[1], e, 1 + (Abs(e) \div 100000)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<e>>)
    [] op = "drawn" -> \* how many, a seed, another, scheme, rounds
         Ret(s, "ok", <<a[1], 10000, 1, 1, (IF a[2] = a[3] THEN 1 ELSE 0)>>)
    [] op = "beams" -> \* how many, seed, way, what the map shows from the right and from the left, readings
         Scanned(s, a, w)
    [] op = "walk" -> \* how many, seed, which spread is unusable, start in eighths and quarter turns, travel and turn by turns
         IF a[1] = 0 THEN Ret(s, "WeightsDegenerate", <<>>) ELSE IF a[3] # 0 THEN Ret(s, "NotPositiveDefinite", <<>>)
         ELSE The({IF q = <<>> THEN Ret(s, "NonFinite", <<>>) ELSE Ret(s, "ok", q \o <<1, IF a[1] <= 3 /\ w.r = "ok" /\ Len(w.v) = 8 /\ w.v[6] = 1 THEN 1 ELSE 0, 0, a[1]>>) : q \in {Walk(a, 7, a[4], a[5], (a[6] + 4) % 4)}})
    [] op = "new" -> \* how many, middle in eighths, two shapes in eighths, normal draws
         LET n == a[1] m == <<a[2] * 512, a[3] * 512>> A == SubSeq(a, 4, 6) L == SubSeq(a, 7, 9) z == List(a, 10) IN
         IF n = 0 THEN Ret(s, "WeightsDegenerate", <<>>) ELSE IF Bad(A) \/ Bad(L) THEN Ret(s, "NotPositiveDefinite", <<>>)
         ELSE Show([n |-> n, X |-> TLCEval([i \in 1..n |-> VPlus(m, Kick(A, Nth(z, 2 * i - 1), Nth(z, 2 * i)))]), e |-> [i \in 1..n |-> 0], L |-> L, scheme |-> 0, thr |-> 4 * n, rough |-> 0, lost |-> FALSE], w, <<0, 2 * n>>, 0)
    [] op = "scheme" -> Ret([s EXCEPT !.scheme = a[1]], "ok", <<>>)
    [] op = "threshold" -> Ret([s EXCEPT !.thr = a[1]], "ok", <<>>)
    [] op = "roughen" -> Ret([s EXCEPT !.rough = a[1]], "ok", <<>>)
    [] op = "process" -> IF Bad(a) THEN Ret(s, "NotPositiveDefinite", <<>>) ELSE Ret([s EXCEPT !.L = a], "ok", <<>>)
    [] s.lost -> AnyOk(s, w)
    [] op = "predict" -> \* four whole numbers, a shift in eighths, normal draws
         LET z == List(a, 7) IN
         IF ~Finites(SubSeq(a, 1, 6)) THEN Ret([s EXCEPT !.lost = TRUE], "NonFinite", <<>>)
         ELSE Show([s EXCEPT !.X = TLCEval([i \in 1..s.n |-> LET x == s.X[i] k == Kick(s.L, Nth(z, 2 * i - 1), Nth(z, 2 * i)) IN
                <<a[1] * x[1] + a[2] * x[2] + a[5] * 512 + k[1], a[3] * x[1] + a[4] * x[2] + a[6] * 512 + k[2]>>])], w, <<0, 2 * s.n>>, 1)
    [] op = "score" -> The({Score(s, w, sc, u, List(a, After(a, After(a, 1)))) : <<sc, u>> \in {<<TLCEval([i \in 1..s.n |-> Nth(List(a, 1), i)]), List(a, After(a, 1))>>}})
    [] op = "sense" -> \* the first coordinate measured, in eighths; the noise such that a residual of one costs a half
         LET u == List(a, 2) z == List(a, After(a, 2)) d == [i \in 1..s.n |-> s.X[i][1] - a[1] * 512] IN
         IF ~Finite(a[1]) THEN Ret(s, "NonFinite", <<>>)
         ELSE IF \E i \in 1..s.n : d[i] % 4096 # 0 \/ Abs(d[i]) > 40960 THEN AnyOk(s, w)
         ELSE The({Score(s, w, sc, u, z) : sc \in {TLCEval([i \in 1..s.n |-> -((d[i] \div 4096) * (d[i] \div 4096))])}})
    [] op = "resample" -> LET u == List(a, 1) z == List(a, After(a, 1)) IN Fresh(s, w, u, z)
    [] op = "facts" -> \* effective size in hundredths, mean in 4096ths, and whether the chosen one is among the heaviest
         LET q == Ps(s) t == TLCEval(Sum(q)) sq == TLCEval(Sum([i \in 1..s.n |-> q[i] * q[i]])) ess == RDiv(t * t, (sq + 50) \div 100)
             mean == TLCEval([k \in 1..2 |-> RDiv(Sum([i \in 1..s.n |-> RDiv(q[i] * (s.X[i][k] \div 64), 1)]), t) * 64])
             best == {s.X[i] : i \in {j \in 1..s.n : s.e[j] = 0}} pick == CHOOSE x \in best : TRUE IN
         IF w.r = "ok" /\ Len(w.v) = 5 /\ Near(w.v[1], ess, 1 + ess \div 200) /\ Near(w.v[2], mean[1], 140) /\ Near(w.v[3], mean[2], 140) /\ <<w.v[4], w.v[5]>> \in best
         THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<ess>> \o mean \o pick)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* somebody always carries weight, and nobody more than the heaviest                                *)
Carried == st.lost \/ (Len(st.X) = st.n /\ Len(st.e) = st.n /\ SetMax({st.e[i] : i \in 1..st.n}) = 0)
============================================================================================
