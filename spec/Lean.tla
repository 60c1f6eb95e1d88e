-------------------------------------- MODULE Lean ---------------------------------------
(* Attitude filters: a facing turned by a rate reading and pulled to where a push sensor and *)
(* a magnetometer say up and north lie, in ten-thousandths; each step is taken from what was *)
(* last seen.                                                                                 *)
EXTENDS FMat
VARIABLES st, out
(* a direction from three whole numbers or ten-thousandths, none of them beyond 200000        *)
Normed(a) == LET m == TLCEval(Size(a)) IN IF m = 0 THEN <<>>
  ELSE The({The({TLCEval([i \in 1..3 |-> RDiv(b[i] * 2 * ONE, n)]) : n \in {Root((b[1] * b[1] + b[2] * b[2] + b[3] * b[3]) * 4)}})
       : b \in {TLCEval([i \in 1..3 |-> IF m <= 9000 THEN a[i] * (9000 \div m) ELSE RDiv(a[i] * 9000, m)])}})
Dot3(x, y) == FM(x[1], y[1]) + FM(x[2], y[2]) + FM(x[3], y[3])
Cross(x, y) == XV(Hat(x), y)
Scaled(c, x) == TLCEval([i \in 1..3 |-> FM(c, x[i])])
Long(x) == IF Size(x) <= 20000 THEN Root(x[1] * x[1] + x[2] * x[2] + x[3] * x[3]) ELSE Root4(Dot3(x, x))
(* the turn, in body axes, that brings each measured direction onto its reference              *)
Pull(s, acc, mag) ==
  LET Body(x) == XV(Tr(s.R), x)
      lean == IF acc = <<>> THEN Zeros(3) ELSE TLCEval(Cross(acc, Body(s.up)))
      turn == IF mag = <<>> THEN Zeros(3) ELSE
        The({Cross(mag, Body(VPlus(Scaled(Long(VMinus(m, Scaled(v, s.up))), s.north), Scaled(v, s.up)))) : <<m, v>> \in {<<n, Dot3(n, s.up)>> : n \in {XV(s.R, mag)}}})
  IN VPlus(lean, turn)
Seen(s) == Flat(s.R) \o s.bg \o <<1>>
Take(s, w, R, bg, e, f) ==
  IF w.r = "ok" /\ Len(w.v) = 13 /\ Finites(w.v) /\ w.v[13] = 1 /\ (\A i \in 1..9 : Near(w.v[i], R[(i + 2) \div 3][((i - 1) % 3) + 1], e)) /\ (\A i \in 1..3 : Near(w.v[9 + i], bg[i], f))
  THEN Ret([s EXCEPT !.R = Rows(SubSeq(w.v, 1, 9), 3), !.bg = SubSeq(w.v, 10, 12)], "ok", w.v)
  ELSE Ret([s EXCEPT !.R = R, !.bg = bg], "ok", Flat(R) \o bg \o <<1>>)
Step(s, w, g, acc, mag, dt) ==
  LET pull == TLCEval(Pull(s, acc, mag)) size == TLCEval(Long(pull)) hard == FM(s.k1 + FM(s.k2, dt), dt)
      Go(d, e) == The({Take(s, w, XM(s.R, ExpM(Scaled(dt, VPlus(VMinus(g, bg), Scaled(s.k1, d))))), bg, 6 + RDiv(e * Abs(hard), ONE), 2 + RDiv(e * Abs(FM(s.k2, dt)), ONE))
                       : bg \in {VMinus(s.bg, Scaled(FM(s.k2, dt), d))}}) IN
  IF s.kind = 0 THEN Go(pull, 12)
  ELSE IF acc = <<>> /\ mag = <<>> THEN Go(Zeros(3), 0)
  ELSE IF size < 500 THEN Go(Zeros(3), 20000)                                              \* any direction, at the usual rate
  ELSE Go([i \in 1..3 |-> FD(pull[i], size)], 30 + (160000 \div size))
Init == st = [kind |-> 0, R |-> Unit(3, ONE), bg |-> Zeros(3), k1 |-> ONE, k2 |-> 1000, up |-> <<0, 0, ONE>>, north |-> <<ONE, 0, 0>>] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "new" -> \* which filter; a rotation vector in eighths
         Ret([kind |-> a[1], R |-> ExpM(In8(SubSeq(a, 2, 4))), bg |-> Zeros(3), k1 |-> IF a[1] = 0 THEN ONE ELSE 1000, k2 |-> IF a[1] = 0 THEN 1000 ELSE 100,
              up |-> <<0, 0, ONE>>, north |-> <<ONE, 0, 0>>], "ok", <<>>)
    [] op = "pull" -> Ret([s EXCEPT !.k1 = In8(a)[1]], "ok", <<>>)
    [] op = "learn" -> Ret([s EXCEPT !.k2 = In8(a)[1]], "ok", <<>>)
    [] op = "world" -> \* up and north in whole numbers: north is levelled; directions that are not two leave both alone
         LET u == SubSeq(a, 1, 3) n == SubSeq(a, 4, 6) IN
         IF ~Finites(a) THEN Ret(s, "ok", <<>>)
         ELSE LET uu == u[1] * u[1] + u[2] * u[2] + u[3] * u[3] un == u[1] * n[1] + u[2] * n[2] + u[3] * n[3] l == TLCEval([i \in 1..3 |-> n[i] * uu - u[i] * un]) IN
              IF uu = 0 \/ Size(l) = 0 THEN Ret(s, "ok", <<>>) ELSE Ret([s EXCEPT !.up = Normed(u), !.north = Normed(l)], "ok", <<>>)
    [] op = "face" -> Ret([s EXCEPT !.R = ExpM(In8(a))], "ok", <<>>)
    [] op = "offset" -> Ret([s EXCEPT !.bg = In8(a)], "ok", <<>>)
    [] op = "look" -> LET e == TLCEval(Seen(s)) IN IF w.r = "ok" /\ Len(w.v) = 13 /\ (\A i \in 1..13 : Near(w.v[i], e[i], IF i <= 12 /\ Finite(e[i]) THEN 3 ELSE 0)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", e)
    [] op \in {"step", "bare"} -> \* rate in eighths, push in whole numbers, seconds in sixteenths; a field in whole numbers when there is one
         LET q == In8(SubSeq(a, 1, 3)) acc == SubSeq(a, 4, 6) dt == a[7] * 625 mag == SubSeq(a, 8, Len(a)) IN
         IF ~Finites(a) THEN Ret(s, "NonFinite", <<>>)
         ELSE IF ~Finites(s.bg) \/ ~Finite(s.k1) \/ ~Finite(s.k2) THEN Ret(s, "NonFinite", <<>>)
         ELSE The({Step(s, w, q, x, y, dt) : <<x, y>> \in {<<Normed(acc), IF mag = <<>> THEN <<>> ELSE Normed(mag)>>}})
    [] op = "spin" -> \* many sixteenths of a second with neither sensor; rate in sixty-fourths
         IF ~Finites(s.bg) \/ ~Finite(s.k1) \/ ~Finite(s.k2) THEN Ret(s, w.r, w.v)
         ELSE LET g == TLCEval([i \in 1..3 |-> (RDiv(a[i] * ONE, 64) - s.bg[i]) * a[4]]) IN
              IF Size(g) > 400000 THEN (IF w.r = "ok" /\ Len(w.v) = 13 /\ Finites(w.v) /\ w.v[13] = 1 THEN Ret([s EXCEPT !.R = Rows(SubSeq(w.v, 1, 9), 3), !.bg = SubSeq(w.v, 10, 12)], "ok", w.v) ELSE Ret(s, "ok", <<1>>))
              ELSE Take(s, w, XM(s.R, ExpM([i \in 1..3 |-> RDiv(g[i], 16)])), s.bg, 20 + (a[4] \div 20), 2)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* the facing stays a rotation, and the world's own directions stay square                       *)
Facing == LET M == XM(st.R, Tr(st.R)) IN \A i, j \in 1..3 : Near(M[i][j], IF i = j THEN ONE ELSE 0, 24)
Square == Abs(Dot3(st.up, st.north)) <= 4 /\ Near(Dot3(st.up, st.up), ONE, 4) /\ Near(Dot3(st.north, st.north), ONE, 4)
============================================================================================
