------------------------------- MODULE SavGol -------------------------------
(* Savitzky-Golay smoothing (signal_processing/savitzky_golay.rs). The fit is*)
(* specified, not computed: with at most three terms the value, slope and    *)
(* bend observed are all the coefficients of the fitted curve, so the least- *)
(* squares conditions (the residual is orthogonal to every fitted power)     *)
(* decide them exactly. Timestep in 1/8 s; observations as integers: value,  *)
(* slope * dt, bend * dt^2 / 2 - the caller feeds multiples that make them so.*)
EXTENDS Lattice
VARIABLES st, out
None == [k |-> "none"]
New(mode, a) ==    \* a = <<window, terms, timestep>>
  IF mode = "centered" /\ a[1] % 2 = 0 THEN Ret(None, "WindowEvenLength", <<>>)
  ELSE IF ~Finite(a[3]) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[3] <= 0 THEN Ret(None, "NonPositiveTimestep", <<>>)
  ELSE IF a[1] = 0 \/ a[2] = 0 THEN Ret(None, "WindowTooShort", <<>>)
  ELSE IF a[2] > a[1] THEN Ret(None, "PolynomialOrderTooHigh", <<>>)
  ELSE LET rp == IF mode = "centered" THEN (a[1] - 1) \div 2 ELSE a[1] - 1 IN
       Ret([k |-> "sg", n |-> a[1], t |-> a[2], rp |-> rp, dt |-> a[3], h |-> <<>>],
           "ok", <<(a[1] - 1 - rp) * a[3], 0, 0, 0>>)         \* delay in 1/8 s
LastN(s) == IF s.h = <<>> THEN Rep(s.n, 0)
            ELSE LET q == Rep(s.n, s.h[1]) \o s.h IN SubSeq(q, Len(q) - s.n + 1, Len(q))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
(* observed v = <<value, slope, bend>> is the least-squares fit of the window *)
IsFit(s, v) == LET q == LastN(s) x == [i \in 1..s.n |-> i - 1 - s.rp] IN
  /\ \A i \in 1..3 : Finite(v[i]) /\ v[i] # OFF
  /\ s.t < 2 => v[2] = 0
  /\ s.t < 3 => v[3] = 0
  /\ \A k \in 0..(MinOf(s.t, 3) - 1) :
       Sum([i \in 1..s.n |-> Pow(x[i], k) * (q[i] - v[1] - v[2] * x[i] - v[3] * x[i] * x[i])]) = 0
(* more than three terms: c = all coefficients of a curve the window lies on  *)
OnCurve(s, c) == LET q == LastN(s) x == [i \in 1..s.n |-> i - 1 - s.rp] IN
  \A i \in 1..s.n : q[i] = Sum([k \in DOMAIN c |-> c[k] * Pow(x[i], k - 1)])
Feed(s, x, w) ==
  LET t == [s EXCEPT !.h = Append(s.h, x)] IN
  IF t.t > 3 THEN Ret(t, "ok", <<>>)
  ELSE IF w.r = "ok" /\ Len(w.v) = 3 /\ IsFit(t, w.v) THEN Ret(t, "ok", w.v) ELSE Ret(t, "not the fit", <<>>)
Curve(s, c) == IF OnCurve(s, c) /\ Len(c) <= s.t
  THEN Ret(s, "ok", <<c[1], IF Len(c) > 1 THEN c[2] ELSE 0, IF Len(c) > 2 THEN c[3] ELSE 0>>)
  ELSE Ret(s, "harness", <<>>)
Apply(s, op, a, w) ==
  CASE op \in {"centered", "latest"} -> New(op, a)
    [] s.k = "none" -> Ret(s, "none", <<>>)
    [] op = "feed" -> Feed(s, a[1], w)
    [] op = "curve" -> Curve(s, a)
    [] op = "reset" -> Ret([s EXCEPT !.h = <<>>], "ok", <<0, 0, 0>>)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
=============================================================================
