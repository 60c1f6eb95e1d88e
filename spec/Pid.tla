-------------------------------- MODULE Pid --------------------------------
(* The fixed-timestep PID controller (control/pid.rs). Fixed point: gains in *)
(* 1/2, timestep in 1/2, smoothing in 1/4, signals and limits integers,      *)
(* internal quantities in 1/S.                                               *)
EXTENDS Lattice
VARIABLES st, out
S == 16384
Fresh == [init |-> FALSE, f |-> 0]
None == [live |-> FALSE]
Ctl(kp, ki, kd, dt) == [live |-> TRUE, kp |-> kp, ki |-> ki, kd |-> kd, dt |-> dt,
    lo |-> NINF, hi |-> INF, sm |-> 4, I |-> 0, flt |-> Fresh, pm |-> 0, pe |-> 0, has |-> FALSE]

New(a) ==
  IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[4] <= 0 THEN Ret(None, "NonPositiveTimestep", <<>>)
  ELSE Ret(Ctl(a[1], a[2], a[3], a[4]), "ok", <<0>>)
Lim(x) == IF Finite(x) THEN x * S ELSE x
Limits(c, a) ==
  IF a[1] = NAN \/ a[2] = NAN THEN Ret(c, "NonFinite", <<>>)
  ELSE IF a[1] > a[2] THEN Ret(c, "InvalidOutputLimits", <<>>)
  ELSE Ret([c EXCEPT !.lo = Lim(a[1]), !.hi = Lim(a[2])], "ok", <<c.I>>)
Smooth(c, a) ==
  IF ~Finite(a[1]) THEN Ret(c, "Signal(NonFinite)", <<>>)
  ELSE IF a[1] < 0 \/ a[1] > 4 THEN Ret(c, "Signal(CoefficientOutOfRange)", <<>>)
  ELSE Ret([c EXCEPT !.sm = a[1], !.flt = Fresh], "ok", <<c.I>>)
SetGains(c, a) ==
  IF ~AllFinite(a) THEN Ret(c, "NonFinite", <<c.I>>)
  ELSE LET d == IF c.has THEN ((c.kp - a[1]) * c.pe * S + (c.kd - a[3]) * c.flt.f) ELSE 0
           c2 == [c EXCEPT !.kp = a[1], !.ki = a[2], !.kd = a[3], !.I = c.I + ExDiv(d, 2)]
       IN Ret(c2, "ok", <<c2.I>>)
(* one step of integral action for error e: ki/2 * e * dt/2 *)
IStep(c, e) == ExDiv(c.ki * e * c.dt * S, 4)
Resume(c, a) ==
  IF ~AllFinite(a) THEN Ret(c, "NonFinite", <<c.I>>)
  ELSE LET e == a[2] - a[3]
           c2 == [c EXCEPT !.I = a[1] * S - ExDiv(c.kp * e * S, 2) - IStep(c, e),
                           !.flt = Fresh, !.pm = a[3], !.pe = e, !.has = TRUE]
       IN Ret(c2, "ok", <<c2.I>>)
Raw(c, m) == IF c.has THEN ExDiv((c.pm - m) * 2 * S, c.dt) ELSE 0
Filt(c, raw) == IF c.flt.init THEN ExDiv(c.sm * raw + (4 - c.sm) * c.flt.f, 4) ELSE raw
Update(c, a) ==
  LET e == a[1] - a[2]
      f == Filt(c, Raw(c, a[2]))
      cand == c.I + IStep(c, e)
      u == ExDiv(c.kp * e * S, 2) + cand + ExDiv(c.kd * f, 2)
      y == Clamp(u, c.lo, c.hi)
      \* the step of integral action would push deeper into the active limit
      deeper == (u > c.hi /\ IStep(c, e) > 0) \/ (u < c.lo /\ IStep(c, e) < 0)
      c2 == [c EXCEPT !.flt = [init |-> TRUE, f |-> f], !.pm = a[2], !.pe = e, !.has = TRUE,
                      !.I = IF deeper THEN c.I ELSE cand]
  IN Ret(c2, "ok", <<y, c2.I>>)
Reset(c) == Ret([c EXCEPT !.I = 0, !.flt = Fresh, !.pm = 0, !.pe = 0, !.has = FALSE], "ok", <<0>>)

Apply(c, op, a, w) ==
  IF op = "new" THEN New(a)
  ELSE IF ~c.live THEN Ret(c, "none", <<>>)
  ELSE CASE op = "limits" -> Limits(c, a) [] op = "smooth" -> Smooth(c, a)
         [] op = "gains" -> SetGains(c, a) [] op = "resume" -> Resume(c, a)
         [] op = "update" -> Update(c, a) [] op = "reset" -> Reset(c)

Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]

------------------------------------------------------------------------------
(* C01 as properties of the model.                                            *)
Ran(op) == out.op = op /\ out.r = "ok"
InLimits == Ran("update") => st.lo <= out.v[1] /\ out.v[1] <= st.hi
(* resuming, then updating with the handover pair, returns that command       *)
BumplessResume == Ran("resume") =>
   Update(st, <<out.a[2], out.a[3]>>).v[1] = Clamp(out.a[1] * S, st.lo, st.hi)
(* reset is indistinguishable from new with the same configuration            *)
ResetIsNew == Ran("reset") =>
   st = [Ctl(st.kp, st.ki, st.kd, st.dt) EXCEPT !.lo = st.lo, !.hi = st.hi, !.sm = st.sm]
(* the command held by P + I + D does not step when gains change              *)
Level(c) == c.kp * c.pe * S + 2 * c.I + c.kd * c.flt.f
BumplessGains == [][(out'.op = "gains" /\ out'.r = "ok" /\ st.has) => Level(st') = Level(st)]_<<st, out>>
(* integral held exactly when saturated and pushed deeper                     *)
NoWindup == [][(out'.op = "update" /\ out'.r = "ok") =>
   LET e == out'.a[1] - out'.a[2] IN
   \/ st'.I = st.I + IStep(st, e)
   \/ st'.I = st.I /\ \/ (IStep(st, e) > 0 /\ out'.v[1] = st.hi)
                      \/ (IStep(st, e) < 0 /\ out'.v[1] = st.lo)]_<<st, out>>
(* the setpoint never reaches the derivative state                            *)
DerivativeOnMeasurement == [][(out'.op = "update") =>
   st'.flt.f = Filt(st, Raw(st, out'.a[2]))]_<<st, out>>
RejectedUnchanged == [][(out'.r \notin {"ok"} /\ out'.op # "new") => st' = st]_<<st, out>>
=============================================================================
