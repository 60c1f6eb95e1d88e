--------------------------------------- MODULE Kf ---------------------------------------
(* The Kalman family on affine models: the Bayes recursion in ten-thousandths, each step    *)
(* taken from the estimate last seen. The unscented filter measures with the points its     *)
(* last predict left behind: the spread they had before the process noise came on top.      *)
EXTENDS FMat
VARIABLES st, out
KF == 0 EKF == 1 UKF == 2
Far == 180000
(* the solution of S y = b for one or two unknowns                                            *)
Solve(S, b) == IF Len(S) = 1 THEN <<FD(b[1], S[1][1])>> ELSE
  LET f == FD(S[2][1], S[1][1]) y == FD(b[2] - FM(f, b[1]), S[2][2] - FM(f, S[1][2])) IN <<FD(b[1] - FM(S[1][2], y), S[1][1]), y>>
(* ---- the recursion ------------------------------------------------------------------------ *)
(* the covariance the measurement is weighed with, and the state the points are centred on       *)
Seen(s) == IF s.k = UKF THEN s.spread ELSE s.P
Centre(s) == IF s.k = UKF THEN s.centre ELSE s.x
Inno(s) == Upper(MPlus(XM(XM(s.H, Seen(s)), Tr(s.H)), s.R))
Gain(s, S) == LET HP == XM(s.H, Seen(s)) IN Tr(Tr([j \in 1..s.n |-> Solve(S, [i \in 1..s.m |-> HP[i][j]])]))              \* row j: gains of component j
Posterior(s, r) == LET S == TLCEval(Inno(s)) K == TLCEval(Gain(s, S)) IN
  [x |-> VPlus(s.x, XV(K, r)), P |-> Upper(MMinus(s.P, XM(XM(K, S), Tr(K)))), S |-> S, kmax |-> SizeM(K)]
Shown(x, P, r, S) == x \o Flat(P) \o r \o Flat(S)
Show(s) == Shown(s.x, s.P, s.inno, s.S)
(* parts of what is shown                                                                      *)
Part(s, v) == LET n == s.n m == s.m IN
  [x |-> SubSeq(v, 1, n), P |-> Rows(SubSeq(v, n + 1, n + n * n), n), r |-> SubSeq(v, n + n * n + 1, n + n * n + m), S |-> Rows(SubSeq(v, n + n * n + m + 1, n + n * n + m + m * m), m)]
Total(s) == s.n + s.n * s.n + s.m + s.m * s.m
AllNear(p, q, e) == \A i \in DOMAIN p : IF Finite(q[i]) THEN Near(p[i], q[i], e) ELSE FALSE
Symmetric(P) == \A i, j \in DOMAIN P : P[i][j] = P[j][i]
(* kept: the estimate as it was seen; lost when numbers grow past what the arithmetic holds        *)
Adopt(s, x, P, r, S) == LET far == ~Finites(x \o Flat(P)) \/ Size(x \o Flat(P)) > Far IN
  [s EXCEPT !.x = IF far THEN Zeros(s.n) ELSE x, !.P = IF far THEN Unit(s.n, 0) ELSE P, !.inno = r, !.S = S, !.lost = far]
Step(s, w, t, ex, eP, eS, r, S) ==
  \* t: expected estimate; tolerances for it
  IF w.r = "ok" /\ Len(w.v) = Total(s) /\ Finites(w.v)
     /\ LET p == TLCEval(Part(s, w.v)) IN AllNear(p.x, t.x, ex) /\ (\A i \in 1..s.n : AllNear(p.P[i], t.P[i], eP)) /\ AllNear(p.r, r, 4 + eS) /\ (\A i \in 1..s.m : AllNear(p.S[i], S[i], 4 + eS)) /\ Symmetric(p.P) /\ Symmetric(p.S)
  THEN LET p == TLCEval(Part(s, w.v)) IN Ret(Adopt(s, p.x, p.P, p.r, p.S), "ok", w.v)
  ELSE Ret(Adopt(s, t.x, t.P, r, S), "ok", Shown(t.x, t.P, r, S))
(* a prediction shows the estimate alone                                                          *)
Rolled(s, w, t, ex, eP) ==
  LET n == s.n at(v) == SubSeq(v, 1, n) cov(v) == Rows(SubSeq(v, n + 1, n + n * n), n) IN
  IF w.r = "ok" /\ Len(w.v) = n + n * n /\ Finites(w.v) /\ AllNear(at(w.v), t.x, ex) /\ (\A i \in 1..n : AllNear(cov(w.v)[i], t.P[i], eP)) /\ Symmetric(cov(w.v))
  THEN Ret(Adopt(s, at(w.v), cov(w.v), s.inno, s.S), "ok", w.v) ELSE Ret(Adopt(s, t.x, t.P, s.inno, s.S), "ok", t.x \o Flat(t.P))
AnyOk(s, w) == Ret([s EXCEPT !.lost = TRUE], IF w = NoW THEN "ok" ELSE w.r, IF w = NoW THEN <<>> ELSE w.v)
Fresh == [k |-> KF, n |-> 1, m |-> 1, x |-> <<0>>, P |-> <<<<10000>>>>, F |-> <<<<10000>>>>, H |-> <<<<10000>>>>, Q |-> <<<<0>>>>, R |-> <<<<10000>>>>,
          inno |-> <<0>>, S |-> <<<<0>>>>, centre |-> <<0>>, spread |-> <<<<0>>>>, reg |-> 0, lost |-> FALSE, vague |-> FALSE, stray |-> FALSE]
Init == st = Fresh /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
(* roll forward: b is what the control adds                                                     *)
Predict(s, w, b) ==
  LET t == TLCEval([x |-> IF FiniteM(s.F) /\ Finites(b) THEN VPlus(XV(s.F, s.x), b) ELSE s.x, P |-> IF FiniteM(s.F) /\ FiniteM(s.Q) THEN Upper(MPlus(XM(XM(s.F, s.P), Tr(s.F)), s.Q)) ELSE s.P]) sure == IF s.k = UKF THEN Definite(MPlus(s.P, Unit(s.n, s.reg))) ELSE "yes"
      sp == IF s.k = UKF /\ FiniteM(s.F) THEN Upper(XM(XM(s.F, MPlus(s.P, Unit(s.n, s.reg))), Tr(s.F))) ELSE s.spread IN
  IF ~FiniteM(s.F) \/ ~Finites(b) THEN
     IF s.k = KF THEN AnyOk(s, w)
     ELSE IF s.k = UKF /\ sure # "yes" THEN OneOf([s EXCEPT !.stray = TRUE], w, {"NotPositiveDefinite"} \cup (IF sure = "edge" THEN {"NonFinite"} ELSE {}))
     ELSE Ret([s EXCEPT !.stray = (s.k = UKF) \/ @], "NonFinite", <<>>)
  ELSE IF ~FiniteM(s.Q) THEN (IF s.k = UKF THEN OneOf([s EXCEPT !.stray = TRUE], w, {"NonFinite"} \cup (IF sure # "yes" THEN {"NotPositiveDefinite"} ELSE {})) ELSE AnyOk(s, w))
  ELSE IF s.k = UKF /\ (sure = "no" \/ (sure = "edge" /\ w.r = "NotPositiveDefinite")) THEN Ret(s, "NotPositiveDefinite", <<>>)
  ELSE LET u == TLCEval(IF s.k = UKF THEN [t EXCEPT !.P = MPlus(sp, s.Q)] ELSE t) q == Rolled(s, w, u, 8 + (Size(u.x) \div 40000), 12 + (SizeM(u.P) \div 20000)) IN
       IF s.k = UKF THEN [q EXCEPT !.st.centre = t.x, !.st.spread = sp, !.st.stray = FALSE] ELSE q
Update(s, w, r) ==
  LET S == IF FiniteM(s.H) /\ FiniteM(s.R) THEN TLCEval(Inno(s)) ELSE s.S sure == Definite(S) vague == [s EXCEPT !.vague = (s.k # UKF) \/ @] IN
  IF ~Finites(r) THEN Ret(IF FiniteM(s.H) THEN s ELSE vague, "NonFinite", <<>>)
  ELSE IF ~FiniteM(s.H) \/ ~FiniteM(s.R) THEN OneOf(vague, w, {"NonFinite"})
  ELSE IF s.stray THEN (IF w.r \in {"NonFinite", "NotPositiveDefinite"} THEN Ret(vague, w.r, <<>>) ELSE AnyOk(s, w))
  ELSE IF SizeM(S) > Far THEN (IF w.r = "NotPositiveDefinite" /\ sure # "yes" THEN Ret(vague, w.r, <<>>) ELSE AnyOk(s, w))
  ELSE IF sure = "no" \/ (sure = "edge" /\ w.r = "NotPositiveDefinite") THEN Ret(vague, "NotPositiveDefinite", <<>>)
  ELSE IF sure = "edge" \/ (\E i \in 1..s.m : S[i][i] < 1200) \/ (s.m = 2 /\ Less1(S)[1][1] < 1200) THEN AnyOk(s, w)
  ELSE LET t == TLCEval(Posterior(s, r)) IN IF t.kmax > 100000 THEN AnyOk(s, w) ELSE
       LET q == Step(s, w, t, 60 + (Size(r) \div 600) + (Size(r) \div 10000) * (t.kmax \div 1000), 60 + (t.kmax \div 400), 8, r, S) IN [q EXCEPT !.st.vague = FALSE]
Apply(s, op, a, w) ==
  LET n == s.n m == s.m IN
  CASE op = "new" -> \* kind, states, measurements, state, covariance (symmetric), process noise, measurement noise: in eighths
         LET k == a[1] nn == a[2] mm == a[3] q == In8(SubSeq(a, 4, Len(a))) x == SubSeq(q, 1, nn) P == Rows(SubSeq(q, nn + 1, nn + nn * nn), nn) IN
         Ret([Fresh EXCEPT !.k = k, !.n = nn, !.m = mm, !.x = x, !.P = P, !.Q = Rows(SubSeq(q, nn + nn * nn + 1, nn + 2 * nn * nn), nn), !.R = Rows(SubSeq(q, nn + 2 * nn * nn + 1, Len(q)), mm),
                !.F = Unit(nn, 10000), !.H = [i \in 1..mm |-> [j \in 1..nn |-> IF i = j THEN 10000 ELSE 0]], !.inno = Zeros(mm), !.S = Unit(mm, 0), !.centre = x, !.spread = Unit(nn, 0)], "ok", <<>>)
    [] op = "set" -> LET q == In8(SubSeq(a, 2, Len(a))) IN \* 0 state, 1 transition, 2 measurement, 3 process noise, 4 measurement noise
         Ret(CASE a[1] = 0 -> [s EXCEPT !.x = q] [] a[1] = 1 -> [s EXCEPT !.F = Rows(q, n)] [] a[1] = 2 -> [s EXCEPT !.H = Rows(q, n)] [] a[1] = 3 -> [s EXCEPT !.Q = Rows(q, n)] [] OTHER -> [s EXCEPT !.R = Rows(q, m)], "ok", <<>>)
    [] op = "form" -> Ret(s, "ok", <<>>)                                                    \* Joseph or naive: the same answer
    [] op = "scaling" -> \* alpha, beta, kappa in eighths: only the spread has to be above zero
         IF ~AllFinite(a) \/ a[1] = 0 \/ 8 * n + a[3] <= 0 THEN Ret(s, "InvalidTuning", <<>>) ELSE Ret([s EXCEPT !.reg = 0, !.stray = (s.k = UKF) \/ @], "ok", <<>>)
    [] op = "ridge" -> \* regularization as a multiple (in eighths) of the spread factor, which is 512ths of eighths
         IF ~AllFinite(a) \/ a[1] < 0 THEN Ret(s, "InvalidTuning", <<>>) ELSE Ret([s EXCEPT !.reg = a[1] * 1250], "ok", <<>>)
    [] op = "direct" -> \* measure listed components
         IF \E i \in DOMAIN a : a[i] < 0 \/ a[i] >= n THEN Ret(s, "StateIndexOutOfRange", <<>>) ELSE Ret([s EXCEPT !.H = [i \in 1..m |-> [j \in 1..n |-> IF a[i] = j - 1 THEN 10000 ELSE 0]]], "ok", a)
    [] op = "look" -> IF s.lost \/ s.vague THEN Ret(s, "ok", w.v) ELSE IF w.r = "ok" /\ Len(w.v) = Total(s) /\ (\A i \in DOMAIN w.v : Near(w.v[i], Show(s)[i], 1)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", Show(s))
    [] op = "estimate" -> IF s.lost THEN Ret(s, "ok", w.v) ELSE LET e == s.x \o Flat(s.P) IN IF w.r = "ok" /\ Len(w.v) = Len(e) /\ (\A i \in DOMAIN e : Near(w.v[i], e[i], 1)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", e)
    [] op = "nis" -> \* the innovation weighted by its covariance
         IF s.lost \/ s.vague THEN (IF w.r = "NotPositiveDefinite" THEN Ret(s, w.r, <<>>) ELSE Ret(s, "ok", w.v))
         ELSE IF SizeM(s.S) = 0 THEN Ret(s, "NotPositiveDefinite", <<>>)
         ELSE LET y == Solve(s.S, s.inno) e == Sum([i \in 1..m |-> FM(s.inno[i], y[i])]) IN
              IF Size(s.inno) > 100000 \/ Size(y) > Far THEN (IF w.r = "ok" /\ Len(w.v) = 1 /\ (w.v[1] >= 0 \/ ~Finite(w.v[1])) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<e>>))
              ELSE IF w.r = "ok" /\ Len(w.v) = 1 /\ Near(w.v[1], e, 20 + (Abs(e) \div 200)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", <<e>>)
    [] op = "turn" -> \* rolling along an arc: x, y, heading, speed, turn rate (tenths), seconds (tenths)
         LET q == [i \in 1..6 |-> a[i] * 1000] d == FM(q[4], q[6]) o == FM(q[5], q[6]) e == PMul(<<q[1], q[2], q[3]>>, Arc(d, o)) v == <<e[1], e[2], Wrap(q[3] + o), q[4], q[5]>> IN
         IF w.r = "ok" /\ Len(w.v) = 5 /\ (\A i \in {1, 2, 4, 5} : Near(w.v[i], v[i], 12 + (Abs(d) \div 2000))) /\ Near(w.v[3], v[3], 4) THEN Ret(s, "ok", w.v)
         ELSE IF w.r = "ok" /\ Len(w.v) = 5 /\ Near(Abs(w.v[3]), 31416, 4) /\ Near(Abs(v[3]), 31416, 8) /\ Near(w.v[1], v[1], 40) /\ Near(w.v[2], v[2], 40) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", v)
    [] op = "folded" -> \* which components are angles (bits), readings, predictions in tenths
         LET k == (Len(a) - 1) \div 2 d == [i \in 1..k |-> (a[1 + i] - a[1 + k + i]) * 1000] bits == [i \in 1..k |-> (a[1] \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 2 ELSE 4)) % 2 = 1] v == [i \in 1..k |-> IF bits[i] THEN Wrap(d[i]) ELSE d[i]] IN
         IF w.r = "ok" /\ Len(w.v) = k /\ (\A i \in 1..k : Near(w.v[i], v[i], 8)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", v)
    [] s.lost -> AnyOk(s, w)
    [] op = "predict" -> Predict(s, w, Zeros(n))
    [] op = "control" -> LET q == In8(a) c == Len(a) \div (n + 1) Bm == Rows(SubSeq(q, 1, n * c), c) u == SubSeq(q, n * c + 1, n * c + c) IN Predict(s, w, IF Finites(q) THEN XV(Bm, u) ELSE [i \in 1..n |-> NAN])
    [] op = "update" -> LET z == In8(a) IN Update(s, w, IF Finites(z) /\ FiniteM(s.H) THEN VMinus(z, XV(s.H, Centre(s))) ELSE [i \in 1..m |-> NAN])
    [] op = "residual" -> Update(s, w, In8(a))
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* a covariance stays symmetric, and a measurement takes no variance up                         *)
StaysSymmetric == ~st.lost => \A i, j \in 1..st.n : Near(st.P[i][j], st.P[j][i], 0)
========================================================================================
