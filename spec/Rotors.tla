-------------------------------- MODULE Rotors --------------------------------
(* MultirotorMixer (plant/multirotor_mixing.rs), RotorLag (plant/rotor_lag.rs). *)
(* Mixer: positions integers, torque ratio, commands and limits in 1/2; thrusts *)
(* observed rounded to 1/K. Lag: thrusts integers observed in 1/S, time in      *)
(* half-lives of the lag.                                                       *)
EXTENDS Lattice
VARIABLES st, out
S == 4096
K == 10000
None == [k |-> "none"]

(* ---- mixer --------------------------------------------------------------- *)
(* twice the push and turn per unit thrust of rotor i at (x, y) with spin +-1  *)
Col(x, y, sp, kap) == <<2, 2 * y, -2 * x, sp * kap>>
RECURSIVE Det(_)
Minor(m, j) == [r \in 1..Len(m) - 1 |-> [c \in 1..Len(m) - 1 |-> m[r + 1][IF c < j THEN c ELSE c + 1]]]
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE Sum([j \in 1..Len(m) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * (IF m[1][j] = 0 THEN 0 ELSE m[1][j] * Det(Minor(m, j)))])
(* the rotors can produce every push and turn                                  *)
Independent(A) == \E i, j, k, l \in DOMAIN A : i < j /\ j < k /\ k < l /\ Det(<<A[i], A[j], A[k], A[l]>>) # 0
Gram(A, r, q) == Sum([i \in DOMAIN A |-> A[i][r] * A[i][q]])
Orthogonal(A) == \A r, q \in 1..4 : r # q => Gram(A, r, q) = 0
Cols(a) == [i \in 1..a[1] |-> Col(a[3 * i + 2], a[3 * i + 3], a[3 * i + 4], a[2])]
(* a = <<n, kappa, lo, hi, x1, y1, s1, ...>>                                    *)
Build(A, kap, lo, hi, w) ==
  IF kap <= 0 THEN Ret(None, "NonPositiveTorqueRatio", <<>>)
  ELSE IF hi <= lo THEN Ret(None, "InvalidThrustLimits", <<>>)
  ELSE IF ~Independent(A)
    THEN Ret(None, IF w.r \in {"Linalg(Singular)", "Linalg(IllConditioned)", "Linalg(Underdetermined)"} THEN w.r
                   ELSE "RotorLayoutNotIndependent", <<>>)
  ELSE Ret([k |-> "mix", A |-> A, lo |-> lo, hi |-> hi], "ok", <<>>)
Mixer(a, w) == IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>) ELSE Build(Cols(a), a[2], a[3], a[4], w)
(* a = <<half the arm's diagonal spread, kappa, lo, hi>>                        *)
QuadX(a, w) ==
  IF ~Finite(a[1]) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[1] <= 0 THEN Ret(None, "NonPositiveArmLength", <<>>)
  ELSE IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE LET h == a[1] k == a[2] IN
       Build(<<Col(h, -h, 1, k), Col(-h, h, 1, k), Col(h, h, -1, k), Col(-h, -h, -1, k)>>, k, a[3], a[4], w)
(* the share of each rotor before limits, on layouts with orthogonal rows:     *)
(* the least-norm one. Commands in 1/2.                                        *)
Share(s, c, i) == LET t == [r \in 1..4 |-> <<s.A[i][r] * c[r], Gram(s.A, r, r)>>] IN
   Sum([r \in 1..4 |-> ExDiv(t[r][1] * K, t[r][2])])
Simple(s, c) == Orthogonal(s.A) /\ \A i \in DOMAIN s.A, r \in 1..4 : (s.A[i][r] * c[r] * K) % Gram(s.A, r, r) = 0
Lo(s) == s.lo * (K \div 2)
Hi(s) == s.hi * (K \div 2)
Wrench(s, t) == [r \in 1..4 |-> Sum([i \in DOMAIN t |-> s.A[i][r] * t[i]])]      \* in 1/2K
(* v = shares before limits (n), thrusts (n), saturated, force (3), torque (3)  *)
MixOk(s, c, v) ==
  LET n == Len(s.A) F == SubSeq(v, 1, n) T == SubSeq(v, n + 1, 2 * n) sat == v[2 * n + 1] W == SubSeq(v, 2 * n + 2, 2 * n + 7) IN
  /\ Len(v) = 2 * n + 7
  /\ \A i \in DOMAIN v : Finite(v[i]) /\ Abs(v[i]) < 8000000
  /\ \A r \in 1..4 : Abs(Wrench(s, F)[r] - c[r] * K) <= 4 * Sum([i \in 1..n |-> Abs(s.A[i][r])])
  /\ \A i \in 1..n : Lo(s) <= T[i] /\ T[i] <= Hi(s) /\ Abs(T[i] - Clamp(F[i], Lo(s), Hi(s))) <= 1
  /\ (sat = 0) => \A i \in 1..n : Lo(s) - 1 <= F[i] /\ F[i] <= Hi(s) + 1
  /\ (sat = 1) => \E i \in 1..n : F[i] <= Lo(s) + 1 \/ F[i] >= Hi(s) - 1
  /\ sat \in {0, 1}
  /\ W[1] = 0 /\ W[2] = 0
  /\ LET p == Wrench(s, T) o == <<W[3], W[4], W[5], W[6]>> IN
     \A r \in 1..4 : Abs(2 * o[r] - p[r]) <= 4 * Sum([i \in 1..n |-> Abs(s.A[i][r])]) + 4
Exactly(s, c) ==
  LET n == Len(s.A) F == [i \in 1..n |-> Share(s, c, i)] T == [i \in 1..n |-> Clamp(F[i], Lo(s), Hi(s))] p == Wrench(s, T) IN
  F \o T \o <<B(T # F), 0, 0>> \o [r \in 1..4 |-> ExDiv(p[r], 2)]
Mix(s, c, w) ==
  IF /\ Simple(s, c)
     /\ \A i \in DOMAIN s.A : Share(s, c, i) \notin {Lo(s), Hi(s)}
     /\ \A r \in 1..4 : Wrench(s, [i \in DOMAIN s.A |-> Clamp(Share(s, c, i), Lo(s), Hi(s))])[r] % 2 = 0
  THEN Ret(s, "ok", Exactly(s, c))
  ELSE IF w.r = "ok" /\ MixOk(s, c, w.v) THEN Ret(s, "ok", w.v) ELSE Ret(s, "wrong thrusts", <<>>)
Unmix(s, t) == LET p == Wrench(s, t) IN Ret(s, "ok", <<0, 0, p[1], p[2], p[3], p[4]>>)   \* in 1/2

(* ---- lag ----------------------------------------------------------------- *)
LagNew(a) ==   \* a = <<time constant class, tick in half-lives>>
  IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[1] <= 0 THEN Ret(None, "NonPositiveTimeConstant", <<>>)
  ELSE IF a[2] <= 0 THEN Ret(None, "NonPositiveTimestep", <<>>)
  ELSE Ret([k |-> "lag", tick |-> a[2], y |-> <<0, 0, 0>>], "ok", <<0, 0, 0, a[2]>>)
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Toward(y, c, j) == c * S + ExDiv(y - c * S, P2(j))
StepOver(s, c, j) == LET y == [i \in 1..3 |-> Toward(s.y[i], c[i], j)] IN Ret([s EXCEPT !.y = y], "ok", y \o y)
Rate(s, c) == Ret(s, "ok", [i \in 1..3 |-> c[i] * S - s.y[i]])
Apply(s, op, a, w) ==
  CASE op = "mixer" -> Mixer(a, w) [] op = "quadx" -> QuadX(a, w) [] op = "lag" -> LagNew(a)
    [] op = "tiny" -> Ret(s, "ok", <<1000, 1000>>)   \* 2^bits newtons asked for over 2^-bits of a lag time
    [] s.k = "none" -> Ret(s, "none", <<>>)
    [] op = "mix" -> Mix(s, a, w) [] op = "unmix" -> Unmix(s, a)
    [] op = "thrusts" -> Ret([s EXCEPT !.y = [i \in 1..3 |-> a[i] * S]], "ok", [i \in 1..3 |-> a[i] * S])
    [] op = "step" -> StepOver(s, a, s.tick) [] op = "over" -> StepOver(s, SubSeq(a, 2, 4), a[1])
    [] op = "rate" -> Rate(s, a) [] op = "reset" -> Ret([s EXCEPT !.y = <<0, 0, 0>>], "ok", <<0, 0, 0>>)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
------------------------------------------------------------------------------
Mixed == out.op = "mix" /\ out.r = "ok"
ThrustsInLimits == Mixed => LET n == Len(st.A) IN \A i \in n + 1..2 * n : Lo(st) <= out.v[i] /\ out.v[i] <= Hi(st)
(* unsaturated commands come back out of the allocation                        *)
RoundTrip == (Mixed /\ out.v[2 * Len(st.A) + 1] = 0) =>
   LET n == Len(st.A) IN \A r \in 1..4 : Abs(2 * out.v[2 * n + 3 + r] - out.a[r] * K) <= 16 * n * 8
Between(y, z, c) == IF y <= c THEN y <= z /\ z <= c ELSE c <= z /\ z <= y
NeverPast == [][(out'.op \in {"step", "over"} /\ out'.r = "ok") =>
   LET c == IF out'.op = "step" THEN out'.a ELSE SubSeq(out'.a, 2, 4) IN
   \A i \in 1..3 : Between(st.y[i], st'.y[i], c[i] * S)]_<<st, out>>
(* a step over a time is the composition of steps over any split of it         *)
Composes == [][(out'.op = "over" /\ out'.r = "ok") => \A j \in 0..out'.a[1] : \A i \in 1..3 :
   Toward(Toward(st.y[i], out'.a[i + 1], j), out'.a[i + 1], out'.a[1] - j) = st'.y[i]]_<<st, out>>
=============================================================================
