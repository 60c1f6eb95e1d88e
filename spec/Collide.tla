--------------------------------- MODULE Collide ---------------------------------
(* Collision queries: spheres and capsules on the frames of a moving tree and in   *)
(* the world. A shape is <<kind, radius, half length, quaternion, position>>; its  *)
(* segment has whole end points. Squared distances are exact fractions; observed   *)
(* clearances are in thousandths.                                                  *)
EXTENDS Rot
VARIABLES st, out
None == [k |-> "none"]
M == 1000
(* local z of a turned pose times h: whole by construction                          *)
ZAxis(q, h) == LET n == QNorm(q) IN VD(VX(<<2 * (q[2] * q[4] + q[1] * q[3]), 2 * (q[3] * q[4] - q[1] * q[2]), q[1] * q[1] - q[2] * q[2] - q[3] * q[3] + q[4] * q[4]>>, h), n)
Seg(P, x) == LET c == Act(P, SubSeq(x, 8, 10)) d == IF x[1] = 0 THEN Z3 ELSE MV(P[1], ZAxis(SubSeq(x, 4, 7), x[3])) IN <<VS(c, d), VA(c, d)>>
(* ---- exact squared distances as <<num, den>> ------------------------------------- *)
Frac(n, d) == <<n, d>>
(* n/d in millionths, rounded down: long division in two steps                        *)
Millionths(f) == LET n == f[1] d == f[2] r == n % d r1 == (r * M) % d IN (n \div d) * M * M + ((r * M) \div d) * M + (r1 * M) \div d
PointSeg(p, s) == LET d == VS(s[2], s[1]) w == VS(p, s[1]) L == Dot(d, d) t == Dot(w, d) IN
   IF L = 0 \/ t <= 0 THEN Frac(Dot(w, w), 1) ELSE IF t >= L THEN Frac(Dot(VS(p, s[2]), VS(p, s[2])), 1)
   ELSE LET n == Cross(w, d) IN Frac(Dot(n, n), L)
(* the feet of the common normal lie inside both segments                              *)
SegSeg(s, z) == LET d == VS(s[2], s[1]) e == VS(z[2], z[1]) w == VS(z[1], s[1]) n == Cross(d, e) N == Dot(n, n)
                    t == Dot(Cross(w, e), n) u == Dot(Cross(w, d), n)
                    ends == {Millionths(PointSeg(s[1], z)), Millionths(PointSeg(s[2], z)), Millionths(PointSeg(z[1], s)), Millionths(PointSeg(z[2], s))}
   IN IF N # 0 /\ t >= 0 /\ t <= N /\ u >= 0 /\ u <= N THEN LET h == Dot(w, n) IN Millionths(<<h * h, N>>) ELSE SetMin(ends)
(* an observed clearance v of shapes with radii summing to r and squared distance g in millionths  *)
Fits(v, r, g) == Finite(v) /\ v # OFF /\ v + M * r \in -2..40000 /\ LET x == v + M * r IN Abs(x * x - g) <= 8 * Abs(x) + 12
Near(g1, g2) == g1 <= g2                                        \* order of exact distances
Shape2(P, x, Q, y) == SegSeg(Seg(P, x), Seg(Q, y))
Pair(s, a, w) ==
  LET x == SubSeq(a, 2, 11) y == SubSeq(a, 12, 21) g == Shape2(IdM, x, IdM, y) r == x[2] + y[2] IN
  IF w.r = "ok" /\ Len(w.v) = 3 /\ \A i \in 1..3 : Fits(w.v[i], r, g) THEN Ret(s, "ok", w.v) ELSE Ret(s, "another distance", <<g, r>>)
(* ---- the tree the shapes ride on ---------------------------------------------------- *)
Frames(c) == LET p0 == <<Turn(<<0, 0, 1>>, 3 * c[1]), Z3>> IN <<p0, Mul(p0, <<Id3, <<1 + c[2], 0, 0>>>>), Mul(p0, <<QMat(<<1, 1, 0, 0>>), <<0, 2, 1>>>>)>>
New(a) == Ret([k |-> "query", cap |-> SubSeq(a, 1, 3), self |-> <<>>, env |-> <<>>, ex |-> <<>>], "ok", <<0, 0>>)
Full == "CollisionCapacityExceeded"
Self(s, a) == IF Len(s.self) = s.cap[1] THEN Ret(s, Full, <<>>) ELSE Ret([s EXCEPT !.self = Append(@, a)], "ok", <<Len(s.self)>>)
Env(s, a) == IF Len(s.env) = s.cap[2] THEN Ret(s, Full, <<>>) ELSE Ret([s EXCEPT !.env = Append(@, a)], "ok", <<Len(s.env)>>)
Excl(s, a) == IF Len(s.ex) = s.cap[3] THEN Ret(s, Full, <<>>) ELSE Ret([s EXCEPT !.ex = Append(@, a)], "ok", <<>>)
Counts(s) == Ret(s, "ok", <<Len(s.self), Len(s.env)>>)
Excluded(s, i, j) == \E k \in DOMAIN s.ex : s.ex[k] \in {<<i, j>>, <<j, i>>}
(* pairs to check: <<0, i, j>> self, <<1, i, j>> self against world                       *)
Pairs(s) == {<<0, i, j>> : i, j \in 0..Len(s.self) - 1} \cup {<<1, i, j>> : i \in 0..Len(s.self) - 1, j \in 0..Len(s.env) - 1}
Checked(s) == {p \in Pairs(s) : p[1] = 1 \/ (p[2] < p[3] /\ ~Excluded(s, p[2], p[3]))}
Squared(s, c, p) == LET F == Frames(c) x == s.self[p[2] + 1] X == Tail(x) IN
   IF p[1] = 0 THEN LET y == s.self[p[3] + 1] IN Shape2(F[x[1] + 1], X, F[y[1] + 1], Tail(y)) ELSE Shape2(F[x[1] + 1], X, IdM, s.env[p[3] + 1])
Radii(s, p) == s.self[p[2] + 1][3] + (IF p[1] = 0 THEN s.self[p[3] + 1][3] ELSE s.env[p[3] + 1][2])
(* clearance bounds from below in thousandths: is v + r below the root of g                 *)
AtLeast(v, r, g) == LET x == v + M * r IN x <= 0 \/ x * x <= g + 8 * x + 12
(* v: 1, kind, i, j, clearance, is it clear by a[3] thousandths                              *)
Check(s, a, w) ==
  LET P == Checked(s) IN
  IF \E k \in DOMAIN s.self : s.self[k][1] > 2 THEN Ret(s, "ToolIndexOutOfRange", <<>>)
  ELSE IF P = {} THEN Ret(s, "ok", <<0, 0, 0, 0, 0, 1>>)
  ELSE IF /\ w.r = "ok" /\ Len(w.v) = 6 /\ w.v[1] = 1 /\ SubSeq(w.v, 2, 4) \in P
          /\ LET p == SubSeq(w.v, 2, 4) c == w.v[5] IN
             /\ Fits(c, Radii(s, p), Squared(s, a, p))
             /\ \A q \in P : AtLeast(c, Radii(s, q), Squared(s, a, q))
             /\ (c > a[3] + 2 => w.v[6] = 1) /\ (c < a[3] - 2 => w.v[6] = 0)
       THEN Ret(s, "ok", w.v) ELSE Ret(s, "not the smallest clearance", <<Cardinality(P)>>)
Apply(s, op, a, w) ==
  CASE op = "pair" -> Pair(s, a, w) [] op = "new" -> New(a) [] s.k = "none" -> Ret(s, "nothing", <<>>)
    [] op = "self" -> Self(s, a) [] op = "env" -> Env(s, a) [] op = "excl" -> Excl(s, a)
    [] op = "counts" -> Counts(s) [] op = "check" -> Check(s, a, w)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
----------------------------------------------------------------------------------
Built == st.k = "query"
WithinCapacity == Built => Len(st.self) <= st.cap[1] /\ Len(st.env) <= st.cap[2] /\ Len(st.ex) <= st.cap[3]
(* a full list refuses and keeps what it holds; entries never change                         *)
Grows(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
KeepsEntries == [][(st.k = "query" /\ out'.op # "new") => Grows(st.self, st'.self) /\ Grows(st.env, st'.env) /\ Grows(st.ex, st'.ex)]_<<st, out>>
(* exact distances: no pair of points on the two segments is closer, and the distance does   *)
(* not depend on the order of the two or on where they are                                   *)
Points(s) == {<<s[1], s[2], k>> : k \in 0..4}                      \* (4 - k) s1 + k s2, in quarters
Quarter(p) == [i \in 1..3 |-> (4 - p[3]) * p[1][i] + p[3] * p[2][i]]
NoCloser == out.op = "pair" => LET x == SubSeq(out.a, 2, 11) y == SubSeq(out.a, 12, 21) s == Seg(IdM, x) z == Seg(IdM, y) g == SegSeg(s, z) IN
   \A p \in Points(s), q \in Points(z) : LET d == VS(Quarter(p), Quarter(q)) IN g <= Millionths(<<Dot(d, d), 16>>)
Symmetric == out.op = "pair" => LET x == SubSeq(out.a, 2, 11) y == SubSeq(out.a, 12, 21) mo == <<QMat(SubSeq(out.a, 22, 25)), SubSeq(out.a, 26, 28)>> IN
   Shape2(IdM, x, IdM, y) = Shape2(IdM, y, IdM, x) /\ Shape2(IdM, x, IdM, y) = Shape2(mo, x, mo, y)
ExclusionSymmetric == Built => \A i, j \in 0..Len(st.self) - 1 : Excluded(st, i, j) = Excluded(st, j, i)
==================================================================================
