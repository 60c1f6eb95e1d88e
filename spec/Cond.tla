-------------------------------- MODULE Cond --------------------------------
(* Deadband, Hysteresis, SlewRateLimiter (signal_processing/conditioning.rs) *)
(* Values are in 1/4; rates and timestep in 1/2.                             *)
EXTENDS Lattice
VARIABLES st, out
None == [k |-> "none"]

DeadNew(a) ==      \* a = <<recentered, threshold>>
  IF ~Finite(a[2]) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[2] < 0 THEN Ret(None, "NegativeThreshold", <<>>)
  ELSE Ret([k |-> "dead", re |-> a[1] = 1, t |-> a[2]], "ok", <<a[2]>>)
DeadApply(s, x) ==
  IF x = NAN THEN Ret(s, "ok", <<NAN>>)
  ELSE IF Finite(x) /\ Abs(x) <= s.t THEN Ret(s, "ok", <<0>>)
  ELSE IF ~Finite(x) \/ ~s.re THEN Ret(s, "ok", <<x>>)
  ELSE Ret(s, "ok", <<x - Sgn(x) * s.t>>)

HystNew(a) ==
  IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[1] >= a[2] THEN Ret(None, "ThresholdsOutOfOrder", <<>>)
  ELSE Ret([k |-> "hyst", lo |-> a[1], hi |-> a[2], yes |-> FALSE], "ok", <<0>>)
HystUpdate(s, x) ==
  LET y == IF x = NAN THEN s.yes ELSE IF x > s.hi THEN TRUE ELSE IF x < s.lo THEN FALSE ELSE s.yes
  IN Ret([s EXCEPT !.yes = y], "ok", <<B(y), B(y)>>)

SlewNew(a) ==
  IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[3] <= 0 THEN Ret(None, "NonPositiveTimestep", <<>>)
  ELSE IF a[1] <= 0 \/ a[2] <= 0 THEN Ret(None, "NonPositiveRate", <<>>)
  ELSE Ret([k |-> "slew", up |-> a[1] * a[3], dn |-> a[2] * a[3], y |-> 0, has |-> FALSE], "ok", <<0>>)
SlewFilter(s, x) ==
  LET y == IF ~s.has THEN x ELSE Clamp(x, s.y - s.dn, s.y + s.up)
  IN Ret([s EXCEPT !.y = y, !.has = TRUE], "ok", <<y, y>>)

Apply(s, op, a, w) ==
  CASE op = "dead" -> DeadNew(a) [] op = "hyst" -> HystNew(a)
    [] op = "slew" -> SlewNew(a) [] op = "slewsym" -> SlewNew(<<a[1], a[1], a[2]>>)
    [] op = "feed" /\ s.k = "dead" -> DeadApply(s, a[1])
    [] op = "feed" /\ s.k = "hyst" -> HystUpdate(s, a[1])
    [] op = "feed" /\ s.k = "slew" -> SlewFilter(s, a[1])
    [] op = "reset" /\ s.k = "hyst" -> Ret([s EXCEPT !.yes = FALSE], "ok", <<0>>)
    [] op = "reset" /\ s.k = "slew" -> Ret([s EXCEPT !.y = 0, !.has = FALSE], "ok", <<0>>)
    [] OTHER -> Ret(s, "none", <<>>)

Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
------------------------------------------------------------------------------
Fed == out.op = "feed" /\ out.r = "ok" /\ Finite(out.a[1])
DeadSign == (Fed /\ st.k = "dead") => /\ (Abs(out.a[1]) <= st.t <=> out.v[1] = 0)
                                      /\ Sgn(out.v[1]) \in {0, Sgn(out.a[1])}
NoChatter == [][(out'.op = "feed" /\ st.k = "hyst" /\ st'.yes # st.yes) =>
   IF st'.yes THEN out'.a[1] > st.hi ELSE out'.a[1] < st.lo]_<<st, out>>
RateKept == [][(out'.op = "feed" /\ st.k = "slew" /\ st.has) =>
   /\ st'.y - st.y <= st.up /\ st.y - st'.y <= st.dn
   /\ (st'.y # out'.a[1] => st'.y - st.y \in {st.up, -st.dn})]_<<st, out>>
=============================================================================
