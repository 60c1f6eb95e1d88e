--------------------------------------- MODULE Esk --------------------------------------
(* The error-state filter: strapdown motion of a nominal state with an error covariance of  *)
(* fifteen carried along, and corrections by sensors of any width, in ten-thousandths; each *)
(* step is taken from the estimate last seen.                                                *)
EXTENDS FMat
VARIABLES st, out
Far == 150000
N == 15
Tri == (N * (N + 1)) \div 2
Block(k) == 3 * k - 2
(* ---- what is seen: position, velocity, rotation by rows, both biases, unit?, upper triangle -- *)
Pairs == TLCEval(LET RECURSIVE g(_, _) g(i, j) == IF i > N THEN <<>> ELSE <<<<i, j>>>> \o (IF j = N THEN g(i + 1, i + 1) ELSE g(i, j + 1)) IN g(1, 1))
Tris(P) == TLCEval([k \in 1..Tri |-> P[Pairs[k][1]][Pairs[k][2]]])
At(i, j) == LET a == IF i <= j THEN i ELSE j b == IF i <= j THEN j ELSE i IN ((a - 1) * (2 * N - a + 2)) \div 2 + (b - a + 1)
Full(q) == TLCEval([i \in 1..N |-> [j \in 1..N |-> q[At(i, j)]]])
Nominal(s) == s.p \o s.v \o Flat(s.R) \o s.bg \o s.ba
Seen(s) == Nominal(s) \o <<1>> \o Tris(s.P)
Total == 21 + 1 + Tri
Read(s, q) == [s EXCEPT !.p = SubSeq(q, 1, 3), !.v = SubSeq(q, 4, 6), !.R = Rows(SubSeq(q, 7, 15), 3), !.bg = SubSeq(q, 16, 18), !.ba = SubSeq(q, 19, 21), !.P = Full(SubSeq(q, 23, Total))]
TooFar(s) == Size(Nominal(s)) > Far \/ SizeM(s.P) > Far
(* the expected next state t: adopt what was seen when it agrees                                *)
Take(t, w, e, c) ==
  IF w.r = "ok" /\ Len(w.v) = Total /\ Finites(w.v) /\ w.v[22] = 1
     /\ (LET q == TLCEval(Nominal(t)) IN \A i \in 1..21 : Near(w.v[i], q[i], e))
     /\ (LET q == TLCEval(Tris(t.P)) IN \A i \in 1..Tri : Near(w.v[22 + i], q[i], c))
  THEN LET u == TLCEval(Read(t, w.v)) IN Ret([u EXCEPT !.lost = TooFar(u)], "ok", w.v)
  ELSE Ret([t EXCEPT !.lost = TooFar(t)], "ok", Seen(t))
AnyOk(s, w) == Ret([s EXCEPT !.lost = TRUE], IF w = NoW THEN "ok" ELSE w.r, w.v)
(* ---- strapdown ------------------------------------------------------------------------------ *)
Moved(s, g, a, dt) ==
  LET turn == TLCEval(VMinus(g, s.bg)) f == TLCEval(VPlus(XV(s.R, TLCEval(VMinus(a, s.ba))), s.g)) h == FM(dt, dt) \div 2 IN
  [s EXCEPT !.p = VPlus(VPlus(s.p, [i \in 1..3 |-> FM(s.v[i], dt)]), [i \in 1..3 |-> FM(f[i], h)]),
            !.v = VPlus(s.v, [i \in 1..3 |-> FM(f[i], dt)]), !.R = XM(s.R, ExpM(TLCEval([i \in 1..3 |-> FM(turn[i], dt)])))]
(* the error's own motion, three rows at a time                                                  *)
Put(F, i, j, M) == TLCEval([r \in 1..N |-> [c \in 1..N |-> IF r \in Block(i)..(Block(i) + 2) /\ c \in Block(j)..(Block(j) + 2) THEN M[r - Block(i) + 1][c - Block(j) + 1] ELSE F[r][c]]])
Transition(s, g, a, dt) ==
  LET turn == TLCEval(VMinus(g, s.bg)) f == TLCEval(VMinus(a, s.ba)) IN
  Put(Put(Put(Put(Put(Unit(N, ONE), 1, 2, Unit(3, dt)), 2, 3, MTimes(XM(s.R, Hat(f)), -dt)), 2, 5, MTimes(s.R, -dt)),
      3, 3, Tr(ExpM(TLCEval([i \in 1..3 |-> FM(turn[i], dt)])))), 3, 4, Unit(3, -dt))
(* densities: gyroscope, accelerometer, and the walks of their biases                             *)
Noise(s, dt) == LET x(n) == FM(FM(n, dt), FM(n, dt)) y(n) == FM(FM(n, n), dt) IN
  [i \in 1..N |-> IF i <= 3 THEN 0 ELSE IF i <= 6 THEN x(s.noise[2]) ELSE IF i <= 9 THEN x(s.noise[1]) ELSE IF i <= 12 THEN y(s.noise[3]) ELSE y(s.noise[4])]
Spread(s, F, q) == LET A == XM(F, s.P) B2 == TLCEval([i \in 1..N |-> [j \in 1..N |-> IF j < i THEN 0 ELSE Sum([k \in 1..N |-> FQ(F[j][k], A[i][k])]) + (IF i = j THEN q[i] ELSE 0)]]) IN Upper(B2)
(* ---- sensors: width, reading expected, and how an error moves it ------------------------------- *)
(* 0 position 1 velocity 2 where the body's x axis points 3 turn-rate bias 4 push bias 5 velocity in body axes; *)
(* 6 height 7 a quarter of the squared distance 8 upward part of the body's y axis; 9 and 10: not a number       *)
Width(k) == IF k \in 0..5 \/ k = 9 THEN 3 ELSE 1
Rt(s) == Tr(s.R)
Reading(s, k) == CASE k = 0 -> s.p [] k = 1 -> s.v [] k = 2 -> [i \in 1..3 |-> s.R[i][1]] [] k = 3 -> s.bg [] k = 4 -> s.ba [] k = 5 -> XV(Rt(s), s.v)
  [] k = 6 -> <<s.p[3]>> [] k = 7 -> <<RDiv(FM(s.p[1], s.p[1]) + FM(s.p[2], s.p[2]) + FM(s.p[3], s.p[3]), 4)>> [] k = 8 -> <<s.R[3][2]>> [] OTHER -> <<NAN>>
Wide(m, parts) == TLCEval([r \in 1..m |-> [c \in 1..N |-> LET b == (c + 2) \div 3 IN IF b \in DOMAIN parts /\ parts[b] # <<>> THEN parts[b][r][c - Block(b) + 1] ELSE 0]])
No == <<>>
Slope(s, k) == CASE k = 0 -> Wide(3, <<Unit(3, ONE)>>) [] k = 1 -> Wide(3, <<No, Unit(3, ONE)>>)
  [] k = 2 -> Wide(3, <<No, No, MTimes(XM(s.R, Hat(<<ONE, 0, 0>>)), -ONE)>>)
  [] k = 3 -> Wide(3, <<No, No, No, Unit(3, ONE)>>) [] k = 4 -> Wide(3, <<No, No, No, No, Unit(3, ONE)>>)
  [] k = 5 -> Wide(3, <<No, Rt(s), Hat(XV(Rt(s), s.v))>>)
  [] k = 6 -> Wide(1, <<<<<<0, 0, ONE>>>>>>) [] k = 7 -> Wide(1, <<<<[j \in 1..3 |-> RDiv(s.p[j], 2)]>>>>)
  [] OTHER -> Wide(1, <<No, No, MTimes(XM(<<s.R[3]>>, Hat(<<0, ONE, 0>>)), -ONE)>>)
(* an error folded in, and the covariance carried over to the new facing                           *)
Folded(s, e) == LET d == TLCEval(SubSeq(e, 7, 9)) G == TLCEval(Put(Unit(N, ONE), 3, 3, MMinus(Unit(3, ONE), MTimes(Hat(d), ONE \div 2)))) IN
  [s EXCEPT !.p = VPlus(@, SubSeq(e, 1, 3)), !.v = VPlus(@, SubSeq(e, 4, 6)), !.R = XM(@, ExpM(d)), !.bg = VPlus(@, SubSeq(e, 10, 12)), !.ba = VPlus(@, SubSeq(e, 13, 15)), !.P = Spread(s, G, Zeros(N))]
Innovation(s, H, Q) == LET A == XM(H, s.P) IN Upper(MPlus(XM(A, Tr(H)), Q))
Diag(q) == [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> IF i = j THEN q[i] ELSE 0]]
(* keep: whether the innovation is the filter's own to remember                                     *)
Correct(s, w, k, r, q, keep) ==
  IF ~Finites(r) THEN Ret(s, "NonFinite", <<>>)
  ELSE IF k \in {9, 10} THEN Ret(s, "NonFinite", <<>>)
  ELSE IF ~Finites(q) THEN Ret(s, "NonFinite", <<>>)
  ELSE LET H == TLCEval(Slope(s, k)) S == TLCEval(Innovation(s, H, Diag(q))) sure == Definite(S) IN
    IF sure = "no" \/ (sure = "edge" /\ w.r = "NotPositiveDefinite") THEN Ret(s, "NotPositiveDefinite", <<>>)
    ELSE IF sure = "edge" \/ SizeM(S) > Far \/ (\E i \in 1..Len(S) : S[i][i] < 2500) THEN AnyOk(s, w)
    ELSE LET A == XM(H, s.P) K == TLCEval(Tr(Elim(S, A))) e == TLCEval(XV(K, r))
             u == [s EXCEPT !.P = TLCEval(LET KS == XM(K, S) IN Upper([i \in 1..N |-> [j \in 1..N |-> IF j < i THEN 0 ELSE s.P[i][j] - Sum([c \in 1..Len(S) |-> FQ(KS[i][c], K[j][c])])]])),
                            !.inno = IF keep THEN r ELSE @, !.S = IF keep THEN S ELSE @] IN
         IF SizeM(K) > 50000 \/ Size(e) > 40000 THEN AnyOk(s, w) ELSE Take(TLCEval(Folded(u, e)), w, 40 + (Size(r) \div 500), 80)
Init == st = [m |-> 3, p |-> Zeros(3), v |-> Zeros(3), R |-> Unit(3, ONE), bg |-> Zeros(3), ba |-> Zeros(3), P |-> Unit(N, ONE), g |-> <<0, 0, -98100>>,
              noise |-> <<0, 0, 0, 0>>, Q |-> <<ONE, ONE, ONE>>, inno |-> Zeros(3), S |-> Unit(3, 0), lost |-> FALSE] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "new" -> \* width; position, velocity, rotation vector, biases; covariance as a diagonal and one vector; noises; measurement noise; gravity or nothing: eighths
         LET q == TLCEval(In8(SubSeq(a, 2, Len(a)))) m == a[1] at(i) == SubSeq(q, 3 * i - 2, 3 * i) d == TLCEval(SubSeq(q, 16, 30)) u == TLCEval(SubSeq(a, 32, 46)) IN
         Ret([st EXCEPT !.m = m, !.p = at(1), !.v = at(2), !.R = ExpM(at(3)), !.bg = at(4), !.ba = at(5),
                !.P = TLCEval([i \in 1..N |-> [j \in 1..N |-> u[i] * u[j] * 1250 + (IF i = j THEN d[i] ELSE 0)]]), !.noise = SubSeq(q, 46, 49), !.Q = SubSeq(q, 50, 49 + m),
                !.g = IF Len(q) = 49 + m THEN <<0, 0, -98100>> ELSE SubSeq(q, 50 + m, 52 + m), !.inno = Zeros(m), !.S = Unit(m, 0), !.lost = FALSE], "ok", <<>>)
    [] op = "form" -> Ret(s, "ok", <<>>)
    [] op = "noise" -> Ret([s EXCEPT !.noise = In8(a)], "ok", <<>>)
    [] op = "sensor" -> Ret([s EXCEPT !.Q = In8(a)], "ok", <<>>)
    [] op = "round" -> \* an error folded in and read off again, in sixteenths
         LET e == [i \in 1..N |-> a[i] * 625] IN IF w.r = "ok" /\ Len(w.v) = N /\ (\A i \in 1..N : Near(w.v[i], e[i], 3)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", e)
    [] s.lost -> AnyOk(s, w)
    [] op = "place" -> LET q == TLCEval(In8(a)) at(i) == SubSeq(q, 3 * i - 2, 3 * i) IN Ret([s EXCEPT !.p = at(1), !.v = at(2), !.R = ExpM(at(3)), !.bg = at(4), !.ba = at(5)], "ok", <<>>)
    [] op = "look" -> LET e == TLCEval(Seen(s)) IN IF w.r = "ok" /\ Len(w.v) = Total /\ (\A i \in 1..Total : Near(w.v[i], e[i], 3)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", e)
    [] op = "inno" -> LET e == s.inno \o Flat(s.S) IN IF w.r = "ok" /\ Len(w.v) = Len(e) /\ (\A i \in DOMAIN e : Near(w.v[i], e[i], 16 + (SizeM(s.S) \div 800))) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", e)
    [] op = "nis" -> IF SizeM(s.S) = 0 THEN Ret(s, "NotPositiveDefinite", <<>>)
         ELSE LET y == Elim(s.S, [i \in 1..s.m |-> <<s.inno[i]>>]) e == Sum([i \in 1..s.m |-> FM(s.inno[i], y[i][1])]) IN
              IF w.r = "ok" /\ Len(w.v) = 1 /\ Near(w.v[1], e, 30 + (Abs(e) \div 100)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<e>>)
    [] op = "nees" -> \* how far a truth, given as an error in sixteenths, lies off by the spread claimed
         LET e == [i \in 1..N |-> a[i] * 625] d == Definite(TLCEval(MMinus(s.P, Unit(N, 1000)))) IN
         IF d # "yes" THEN (IF w.r \in {"ok", "NotPositiveDefinite"} THEN Ret(s, w.r, w.v) ELSE Ret(s, "NotPositiveDefinite", <<>>))
         ELSE LET x == The({Sum([i \in 1..N |-> FM(e[i], y[i][1])]) : y \in {Elim(s.P, [i \in 1..N |-> <<e[i]>>])}}) IN
              IF w.r = "ok" /\ Len(w.v) = 1 /\ Near(w.v[1], x, 100 + (Abs(x) \div 30)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<x>>)
    [] op = "predict" -> \* readings in eighths, seconds in sixteenths
         LET q == In8(a) dt == IF Finite(a[7]) THEN a[7] * 625 ELSE NAN IN
         IF ~Finites(q) \/ dt = NAN THEN Ret(s, "NonFinite", <<>>)
         ELSE IF ~Finites(s.noise) THEN Ret(s, "NonFinite", <<>>)
         ELSE LET g == SubSeq(q, 1, 3) f == SubSeq(q, 4, 6) F == TLCEval(Transition(s, g, f, dt)) IN
              Take([TLCEval(Moved(s, g, f, dt)) EXCEPT !.P = Spread(s, F, TLCEval(Noise(s, dt)))], w, 16, 24 + (SizeM(s.P) \div 1500))
    [] op = "update" -> LET z == In8(SubSeq(a, 2, Len(a))) IN Correct(s, w, a[1], IF Finites(z) /\ a[1] \notin {9, 10} THEN VMinus(z, Reading(s, a[1])) ELSE <<NAN>>, s.Q, TRUE)
    [] op = "residual" -> Correct(s, w, a[1], In8(SubSeq(a, 2, Len(a))), s.Q, TRUE)
    [] op = "other" -> LET n == Width(a[1]) q == In8(SubSeq(a, 2, Len(a))) IN Correct(s, w, a[1], SubSeq(q, 1, n), SubSeq(q, n + 1, 2 * n), FALSE)
    [] op = "inject" -> LET e == [i \in 1..N |-> a[i] * 625] IN Take(TLCEval(Folded(s, e)), w, 12, 30)
    [] op = "condition" -> \* lift directions below a floor, in eighths
         LET low == a[1] * 1250 IN
         IF Definite(TLCEval(MMinus(s.P, Unit(N, low + 60)))) = "yes" THEN Take(s, w, 3, 6)
         ELSE IF w.r = "ok" /\ Len(w.v) = Total /\ Finites(w.v) /\ (LET q == Nominal(s) IN \A i \in 1..21 : Near(w.v[i], q[i], 3)) /\ w.v[22] = 1
                 /\ (LET u == Read(s, w.v) IN Definite(TLCEval(MMinus(u.P, Unit(N, low - 200)))) # "no" /\ \A i \in 1..N : u.P[i][i] >= s.P[i][i] - 8)
         THEN LET u == TLCEval(Read(s, w.v)) IN Ret([u EXCEPT !.lost = TooFar(u)], "ok", w.v) ELSE AnyOk(s, NoW)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* the facing stays a rotation                                                                      *)
Facing == st.lost \/ LET M == XM(st.R, Tr(st.R)) IN \A i, j \in 1..3 : Near(M[i][j], IF i = j THEN ONE ELSE 0, 24)
========================================================================================
