-------------------------------- MODULE Recur --------------------------------
(* Recursive filters: OnePoleLowPass, Biquad, BiquadCascade,                  *)
(* MultiChannelBiquad and the biquad designs (signal_processing/one_pole.rs,  *)
(* biquad.rs, cascade.rs). Samples are integers, weights in 1/2, smoothing in *)
(* 1/4 or 1/3; memory and outputs in 1/S.                                     *)
EXTENDS Lattice
VARIABLES st, out
S == 16384
M == 1000000
None == [k |-> "none"]
(* observed v (unit 1/M) is p/q within t units                                *)
NearR(v, p, q, t) == Abs(v) < 20 * M /\ LET d == v * q - p * M IN Abs(d) <= t * Abs(q)

(* ---- one pole ------------------------------------------------------------ *)
One(num, den) == [k |-> "one", n |-> num, d |-> den, y |-> 0, has |-> FALSE]
OneNew(a) ==
  IF ~Finite(a[1]) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[1] < 0 \/ a[1] > 4 THEN Ret(None, "CoefficientOutOfRange", <<>>)
  ELSE Ret(One(a[1], 4), "ok", <<0>>)
(* a = <<w, dt>>: cutoff frequency w / (3 * 2 pi * dt), so smoothing w/(w+3)  *)
OneCut(a) ==
  IF ~AllFinite(a) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[2] <= 0 THEN Ret(None, "NonPositiveTimestep", <<>>)
  ELSE IF a[1] < 0 THEN Ret(None, "FrequencyOutOfRange", <<>>)
  ELSE Ret(One(a[1], a[1] + 3), "ok", <<0>>)
OneFeed(s, x) == LET y == IF s.has THEN ExDiv(s.n * x * S + (s.d - s.n) * s.y, s.d) ELSE x * S
                 IN Ret([s EXCEPT !.y = y, !.has = TRUE], "ok", <<y, y>>)

(* ---- second-order sections ----------------------------------------------- *)
Sec(c) == [c |-> c, s1 |-> 0, s2 |-> 0, y |-> 0]      \* c = <<b0, b1, b2, a1, a2>>
Step(g, x) ==                                         \* x in 1/S
  LET c == g.c
      y == ExDiv(c[1] * x, 2) + g.s1
      s1 == ExDiv(c[2] * x - c[4] * y, 2) + g.s2
      s2 == ExDiv(c[3] * x - c[5] * y, 2)
  IN [g EXCEPT !.y = y, !.s1 = s1, !.s2 = s2]
Settle(g, x) ==
  LET c == g.c
      y == ExDiv(x * (c[1] + c[2] + c[3]), 2 + c[4] + c[5])
      s2 == ExDiv(c[3] * x - c[5] * y, 2)
      s1 == ExDiv(c[2] * x - c[4] * y, 2) + s2
  IN [g EXCEPT !.y = y, !.s1 = s1, !.s2 = s2]
RECURSIVE Chain(_, _, _, _)
Chain(F(_, _), g, x, i) ==
  IF i > Len(g) THEN g
  ELSE LET h == F(g[i], x) IN Chain(F, [g EXCEPT ![i] = h], h.y, i + 1)
Coef(a, i) == SubSeq(a, 5 * i - 4, 5 * i)
Ys(g) == [i \in DOMAIN g |-> g[i].y]
(* a cascade answers with the last section, a multi-channel filter with all   *)
Vals(s, g) == IF s.k = "multi" THEN Ys(g) \o Ys(g)
              ELSE LET y == IF g = <<>> THEN 0 ELSE g[Len(g)].y IN <<y, y>>
SecNew(k, n, a) == Ret([k |-> k, g |-> [i \in 1..n |-> Sec(IF k = "multi" THEN a ELSE Coef(a, i))]], "ok", <<>>)
SecFeed(s, a) ==
  LET g == IF s.k = "multi" THEN [i \in DOMAIN s.g |-> Step(s.g[i], a[i] * S)]
           ELSE Chain(Step, s.g, a[1] * S, 1)
      \* an empty chain passes its input on and has no last section to report
  IN Ret([s EXCEPT !.g = g], "ok", IF g = <<>> THEN <<a[1] * S, 0>> ELSE Vals(s, g))
SecSettle(s, a) ==
  LET g == IF s.k = "multi" THEN [i \in DOMAIN s.g |-> Settle(s.g[i], a[i] * S)]
           ELSE Chain(Settle, s.g, a[1] * S, 1)
  IN Ret([s EXCEPT !.g = g], "ok", Vals(s, g))
(* a = <<index, weights>>; index -1: the single filter or every channel       *)
SecSet(s, a) ==
  LET c == SubSeq(a, 2, 6) IN
  IF s.k = "casc" THEN
    IF a[1] >= Len(s.g) THEN Ret(s, "SectionIndexOutOfRange", <<>>)
    ELSE Ret([s EXCEPT !.g[a[1] + 1].c = c], "ok", <<>>)
  ELSE Ret([s EXCEPT !.g = [i \in DOMAIN s.g |-> [s.g[i] EXCEPT !.c = c]]], "ok", <<>>)
SecReset(s) == LET g == [i \in DOMAIN s.g |-> Sec(s.g[i].c)] IN Ret([s EXCEPT !.g = g], "ok", Vals(s, g))

(* ---- frequency response: at f*dt = 0, 1/4, 1/2 --------------------------- *)
Stable(c) == Abs(c[5]) < 2 /\ Abs(c[4]) < 2 + c[5]
Nume(c, f) == CASE f = 0 -> <<c[1] + c[2] + c[3], 0>> [] f = 2 -> <<c[1] - c[2] + c[3], 0>> [] f = 1 -> <<c[1] - c[3], -c[2]>>
Deno(c, f) == CASE f = 0 -> <<2 + c[4] + c[5], 0>> [] f = 2 -> <<2 - c[4] + c[5], 0>> [] f = 1 -> <<2 - c[5], -c[4]>>
Sq(z) == z[1] * z[1] + z[2] * z[2]
(* direction in eighths of a turn, or -1                                      *)
Oct(z) == CASE z[2] = 0 /\ z[1] > 0 -> 0 [] z[2] = 0 /\ z[1] < 0 -> 4 [] z[1] = 0 /\ z[2] > 0 -> 2 [] z[1] = 0 /\ z[2] < 0 -> 6
            [] z[1] = z[2] -> IF z[1] > 0 THEN 1 ELSE 5 [] z[1] = -z[2] -> IF z[1] > 0 THEN 7 ELSE 3 [] OTHER -> -1
(* v per section: magnitude in 1/1000, phase in eighths mod 8; then product,  *)
(* phase-sum, delay and decibel identities of the whole (all zero), stability *)
RespOk(s, f, v) ==
  /\ Len(v) = 2 * Len(s.g) + 5
  /\ \A i \in DOMAIN s.g :
       LET c == s.g[i].c n == Nume(c, f) d == Deno(c, f) m == v[2 * i - 1] IN Sq(d) # 0 =>   \* (an infinite response is left open)
       /\ Finite(m) /\ m >= 0 /\ m < 40000
       /\ Abs(m * m - (1000000 * Sq(n)) \div Sq(d)) <= 2 * m + 2
       /\ (Sq(n) # 0 /\ Oct(n) # -1 /\ Oct(d) # -1) => v[2 * i] = (Oct(n) - Oct(d)) % 8
  /\ \A j \in 1..4 : v[2 * Len(s.g) + j] = 0
  /\ v[2 * Len(s.g) + 5] = B(\A i \in DOMAIN s.g : Stable(s.g[i].c))
Resp(s, a, w) == IF w.r = "ok" /\ RespOk(s, a[1], w.v) THEN Ret(s, "ok", w.v) ELSE Ret(s, "wrong response", <<>>)

(* ---- designs ------------------------------------------------------------- *)
(* kind 0 low, 1 high, 2 band, 3 notch; centre has cosine c/16 and the damping *)
(* term is p/q. Weights observed in 1/M.                                      *)
Raw(kind, c, p, q) == \* numerators over 32*q
  CASE kind = 0 -> <<(16 - c) * q, 2 * (16 - c) * q, (16 - c) * q>>
    [] kind = 1 -> <<(16 + c) * q, -2 * (16 + c) * q, (16 + c) * q>>
    [] kind = 2 -> <<32 * p, 0, -32 * p>>
    [] kind = 3 -> <<32 * q, -4 * c * q, 32 * q>>
Design(s, a, w) ==   \* a = <<kind, c, p, q, tol>>
  LET r == Raw(a[1], a[2], a[3], a[4]) l == 32 * (a[3] + a[4]) IN
  IF /\ w.r = "ok" /\ Len(w.v) = 7
     /\ \A i \in 1..3 : NearR(w.v[i], r[i], l, a[5])
     /\ NearR(w.v[4], -4 * a[2] * a[4], l, a[5]) /\ NearR(w.v[5], a[4] - a[3], a[3] + a[4], a[5])
     /\ w.v[6] = 1 /\ w.v[7] = 0           \* stable; timestep kept
  THEN Ret(s, "ok", w.v) ELSE Ret(s, "wrong design", <<>>)
(* harmonic notches: multiples k = 1..n; a = <<n, x, p, q>>, cosine of the     *)
(* fundamental x/8, tangent of its damping angle p/q                           *)
CosK(x, k) == CASE k = 1 -> <<x, 8>> [] k = 2 -> <<2 * x * x - 64, 64>> [] k = 3 -> <<(x * x * x - 48 * x) , 128>>
TanK(p, q, k) == CASE k = 1 -> <<p, q>> [] k = 2 -> <<2 * p * q, q * q - p * p>>
                   [] k = 3 -> <<3 * p * q * q - p * p * p, q * q * q - 3 * p * p * q>>
Harm(s, a, w) ==
  IF /\ w.r = "ok" /\ Len(w.v) = 5 * a[1]
     /\ \A k \in 1..a[1] : LET v == Coef(w.v, k) c == CosK(a[2], k) t == TanK(a[3], a[4], k) IN
        /\ NearR(v[1], t[2], t[1] + t[2], 5) /\ v[3] = v[1] /\ NearR(v[5], t[2] - t[1], t[1] + t[2], 5)
        /\ v[2] = v[4] /\ Abs(v[2] * c[2] + 2 * c[1] * v[1]) <= 1000
  THEN Ret(s, "ok", w.v) ELSE Ret(s, "wrong harmonics", <<>>)
(* argument checks: a = <<f, q, dt>> in 1/4; n sections for the harmonic form  *)
CheckDesign(a, n) ==
  IF n = 0 THEN "WindowTooShort"
  ELSE IF ~AllFinite(a) THEN "NonFinite" ELSE IF a[3] <= 0 THEN "NonPositiveTimestep"
  ELSE IF a[2] <= 0 THEN "NonPositiveQualityFactor"
  ELSE IF a[1] <= 0 \/ a[1] * a[3] >= 8 \/ n * a[1] * a[3] >= 8 THEN "FrequencyOutOfRange" ELSE "ok"
CheckWeights(a) ==   \* five weights and the timestep
  IF ~AllFinite(a) THEN "NonFinite" ELSE IF a[6] <= 0 THEN "NonPositiveTimestep" ELSE "ok"

Apply(s, op, a, w) ==
  CASE op = "one" -> OneNew(a) [] op = "onecut" -> OneCut(a)
    [] op = "bi" -> SecNew("bi", 1, a) [] op = "multi" -> SecNew("multi", 3, a)
    [] op = "casc" -> SecNew("casc", Len(a) \div 5, a)
    [] op = "design" -> Design(s, a, w) [] op = "harm" -> Harm(s, a, w)
    [] op = "chk" -> Ret(s, CheckDesign(SubSeq(a, 2, 4), 1), <<>>)
    [] op = "chkharm" -> Ret(s, CheckDesign(SubSeq(a, 2, 4), a[1]), <<>>)
    [] op = "chkw" -> Ret(s, CheckWeights(a), <<>>)
    [] s.k = "none" -> Ret(s, "none", <<>>)
    [] op = "feed" -> IF s.k = "one" THEN OneFeed(s, a[1]) ELSE SecFeed(s, a)
    [] op = "reset" -> IF s.k = "one" THEN Ret([s EXCEPT !.y = 0, !.has = FALSE], "ok", <<0, 0>>) ELSE SecReset(s)
    [] op = "set" -> SecSet(s, a) [] op = "settle" -> SecSettle(s, a) [] op = "resp" -> Resp(s, a, w)

Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
------------------------------------------------------------------------------
(* settled: the same input again changes nothing                              *)
SettledIsFixed == (out.op = "settle" /\ out.r = "ok" /\ st.g # <<>>) => LET x == SecFeed(st, out.a) IN x.st = st /\ x.v = out.v
ResetIsNew == (out.op = "reset" /\ st.k \in {"bi", "casc", "multi"}) => \A i \in DOMAIN st.g : st.g[i] = Sec(st.g[i].c)
KeepsMemory == [][(out'.op = "set" /\ out'.r = "ok") =>
   \A i \in DOMAIN st.g : <<st'.g[i].s1, st'.g[i].s2, st'.g[i].y>> = <<st.g[i].s1, st.g[i].s2, st.g[i].y>>]_<<st, out>>
=============================================================================
