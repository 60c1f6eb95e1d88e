---------------------------------- MODULE Grid ----------------------------------
(* Occupancy maps and ray casting (mapping/occupancy_grid.rs). World points are  *)
(* in 1/U cell from the map's lowest corner; U = 8. Cells are numbered            *)
(* row * columns + column. Rays run along whole-number directions (p, q); places  *)
(* along a ray are whole multiples of 1/Den(p, q) of the direction.               *)
EXTENDS Lattice
VARIABLES st, out
None == [k |-> "none"]
U == 8
K == 1000                       \* ray distances are observed in 1/K of 1/U cell
Tol == 40                       \* f32 far from the origin
HUGE == -1                      \* stands for the largest index

Cells(s) == 0..(s.c * s.r - 1)
Row(s, n) == n \div s.c
Col(s, n) == n % s.c
RECURSIVE Sorted(_)
Sorted(Z) == IF Z = {} THEN <<>> ELSE <<SetMin(Z)>> \o Sorted(Z \ {SetMin(Z)})
Range(q) == {q[i] : i \in DOMAIN q}

New(a) ==  \* columns, rows, resolution class (1..3 binary, 4.. not), origin x, y
  IF a[1] = 0 \/ a[2] = 0 THEN Ret(None, "EmptyGrid", <<>>)
  ELSE IF (a[1] = HUGE /\ a[2] > 1) \/ (a[2] = HUGE /\ a[1] > 1) THEN Ret(None, "GridTooLarge", <<>>)
  ELSE IF ~(Finite(a[3]) /\ Finite(a[4]) /\ Finite(a[5])) THEN Ret(None, "NonFinite", <<>>)
  ELSE IF a[3] <= 0 THEN Ret(None, "NonPositiveResolution", <<>>)
  ELSE Ret([k |-> "map", c |-> a[1], r |-> a[2], dy |-> a[3] < 4, occ |-> {}], "ok", <<a[1], a[2], a[3], a[4], a[5]>>)

On(s, r, c) == 0 <= r /\ r < s.r /\ 0 <= c /\ c < s.c
Written(s, occ) == Ret([s EXCEPT !.occ = occ], "ok", Sorted(occ))
Set(s, a) == IF ~On(s, a[1], a[2]) THEN Written(s, s.occ)
             ELSE LET n == a[1] * s.c + a[2] IN Written(s, IF a[3] = 1 THEN s.occ \cup {n} ELSE s.occ \ {n})
Get(s, a) == Ret(s, "ok", <<B(On(s, a[1], a[2]) /\ a[1] * s.c + a[2] \in s.occ)>>)
(* the one cell holding a point: lower edges belong to the cell                   *)
Holds(s, x, y) == IF ~Finite(x) \/ ~Finite(y) THEN {}
                  ELSE LET c == x \div U r == y \div U IN IF On(s, r, c) THEN {r * s.c + c} ELSE {}
CellOf(s, a) == LET h == Holds(s, a[1], a[2]) IN
  IF h = {} THEN Ret(s, "none", <<>>) ELSE LET n == CHOOSE n \in h : TRUE IN Ret(s, "ok", <<Row(s, n), Col(s, n)>>)
Point(s, a) == Written(s, s.occ \cup Holds(s, a[1], a[2]))

(* ---- lines ----------------------------------------------------------------- *)
Den(p, q) == MaxOf(Abs(p), 1) * MaxOf(Abs(q), 1)
(* the places t (times Den) at which x + p t lies in [c U, (c + 1) U]; Far is beyond any place *)
Far == 10000000
Lo(x, p, q, c) == IF p = 0 THEN (IF c * U <= x /\ x <= (c + 1) * U THEN -Far ELSE Far)
                  ELSE Sgn(p) * ((IF p > 0 THEN c * U ELSE (c + 1) * U) - x) * MaxOf(Abs(q), 1)
Hi(x, p, q, c) == IF p = 0 THEN (IF c * U <= x /\ x <= (c + 1) * U THEN Far ELSE -Far)
                  ELSE Sgn(p) * ((IF p > 0 THEN (c + 1) * U ELSE c * U) - x) * MaxOf(Abs(q), 1)
In(s, x, y, p, q, n) == MaxOf(Lo(x, p, q, Col(s, n)), Lo(y, q, p, Row(s, n)))
Out(s, x, y, p, q, n) == MinOf(Hi(x, p, q, Col(s, n)), Hi(y, q, p, Row(s, n)))
RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= v \div m THEN Root(v, m, hi) ELSE Root(v, lo, m - 1)
Len1000(p, q) == LET n == p * p + q * q IN      \* length of (p, q), in 1/1000
   IF n < 2100 THEN Root(n * 1000000, 0, 46000) ELSE 10 * Root(n * 10000, 0, 46000)
(* chord of the line with the cell, in 1/1000 of 1/U cell                          *)
Inside(t, p, q) == (t * Len1000(p, q)) \div Den(p, q)

(* ---- rays -------------------------------------------------------------------*)
(* ray from (x, y) along (p, q), range m in 1/U cell (INF: unbounded)              *)
Along(s, x, y, p, q, n) == In(s, x, y, p, q, n) < Out(s, x, y, p, q, n) /\ Out(s, x, y, p, q, n) > 0
   /\ (p # 0 \/ (Col(s, n) * U < x /\ x < (Col(s, n) + 1) * U))
   /\ (q # 0 \/ (Row(s, n) * U < y /\ y < (Row(s, n) + 1) * U))
Touch(s, x, y, p, q, n) == In(s, x, y, p, q, n) <= Out(s, x, y, p, q, n) /\ Out(s, x, y, p, q, n) >= 0
Entry(s, x, y, p, q, n) == MaxOf(In(s, x, y, p, q, n), 0)
(* bearing zero on binary maps has no rounding at all: half-open cells and closed range decide *)
Exact0(s, p, q) == s.dy /\ p > 0 /\ q = 0
Row0(s, x, y, n) == Row(s, n) = y \div U /\ (Col(s, n) + 1) * U > x
Must(s, x, y, p, q) == {n \in s.occ : IF Exact0(s, p, q) THEN Row0(s, x, y, n) ELSE Along(s, x, y, p, q, n)}
(* the outermost edges belong to no cell; a ray along or on them may graze the cells they bound *)
May(s, x, y, p, q) == IF Exact0(s, p, q) /\ y # s.r * U /\ x # s.c * U THEN Must(s, x, y, p, q) ELSE {n \in s.occ : Touch(s, x, y, p, q, n)}
Ray(s, a, w) ==
  LET x == a[1] y == a[2] p == a[3] q == a[4] m == a[5]
      here == Holds(s, x, y) \cap s.occ
      must == {Entry(s, x, y, p, q, n) : n \in Must(s, x, y, p, q)}
      first == IF must = {} THEN Far ELSE SetMin(must)
      allowed == {e \in {Entry(s, x, y, p, q, n) : n \in May(s, x, y, p, q)} : e <= first}
      Dist(e) == (e * Len1000(p, q)) \div Den(p, q)
      slack == IF Exact0(s, p, q) THEN 0 ELSE Tol
      In0(e) == m = INF \/ (m < 2000000 /\ Dist(e) <= m * K + slack)       \* may be reported
      Sure(e) == m = INF \/ (m < 2000000 /\ Dist(e) <= m * K - slack)      \* must be reported
  IN IF here # {} THEN (IF m < 0 THEN Ret(s, "none", <<>>) ELSE Ret(s, "ok", <<0>>))
     ELSE IF w.r = "ok" /\ Len(w.v) = 1 /\ \E e \in allowed : In0(e) /\ Abs(w.v[1] - Dist(e)) <= Tol THEN Ret(s, "ok", w.v)
     ELSE IF w.r = "none" /\ ~(first # Far /\ Sure(first)) THEN Ret(s, "none", <<>>)
     ELSE IF first = Far THEN Ret(s, "none", <<>>)
     ELSE IF Sure(first) THEN Ret(s, "ok", <<Dist(first)>>) ELSE Ret(s, "none", <<>>)

(* ---- drawing ----------------------------------------------------------------*)
(* edge from (x, y) to (x + p, y + q): cells it runs through for at least half a cell, cells it touches *)
EdgeMust(s, e) == LET x == e[1] y == e[2] p == e[3] q == e[4] IN
   IF p = 0 /\ q = 0 THEN Holds(s, x, y)
   ELSE {n \in Cells(s) : LET i == MaxOf(In(s, x, y, p, q, n), 0) o == MinOf(Out(s, x, y, p, q, n), Den(p, q)) IN
           o > i /\ Along(s, x, y, p, q, n) /\ Inside(o - i, p, q) >= (K * U) \div 2} \cup (IF s.dy THEN Holds(s, x, y) \cup Holds(s, x + p, y + q) ELSE {})
EdgeMay(s, e) == LET x == e[1] y == e[2] p == e[3] q == e[4] IN
   IF p = 0 /\ q = 0 THEN {n \in Cells(s) : In(s, x, y, 0, 0, n) <= Out(s, x, y, 0, 0, n)}
   ELSE {n \in Cells(s) : LET i == MaxOf(In(s, x, y, p, q, n), 0) o == MinOf(Out(s, x, y, p, q, n), Den(p, q)) IN i <= o}
Vertex(a, i) == <<a[2 * i], a[2 * i + 1]>>
Edges(a) ==  \* a = <<closed, x1, y1, ...>>
  LET n == (Len(a) - 1) \div 2 IN
  {LET u == Vertex(a, i) v == Vertex(a, (i % n) + 1) IN <<u[1], u[2], v[1] - u[1], v[2] - u[2]>> :
     i \in IF n = 0 THEN {} ELSE IF a[1] = 1 THEN 1..n ELSE 1..n - 1}
Drawn(s, must, may, w, extra(_)) ==
  LET z == Range(w.v) IN
  IF w.r = "ok" /\ z \subseteq Cells(s) /\ (s.occ \cup must) \subseteq z /\ z \subseteq (s.occ \cup may) /\ w.v = Sorted(z) /\ extra(z)
  THEN Ret([s EXCEPT !.occ = z], "ok", w.v)
  ELSE Ret(s, "not drawn", Sorted(s.occ \cup must))
Anyhow(z) == TRUE
Poly(s, a, w) == Drawn(s, UNION {EdgeMust(s, e) : e \in Edges(a)}, UNION {EdgeMay(s, e) : e \in Edges(a)}, w, Anyhow)
(* cells the rim of a circle touches: nearest point within, farthest point beyond   *)
Near1(x, c) == IF x < c * U THEN c * U - x ELSE IF x > (c + 1) * U THEN x - (c + 1) * U ELSE 0
Far1(x, c) == MaxOf(Abs(x - c * U), Abs((c + 1) * U - x))
RimMay(s, x, y, d) == {n \in Cells(s) :
   /\ Near1(x, Col(s, n)) * Near1(x, Col(s, n)) + Near1(y, Row(s, n)) * Near1(y, Row(s, n)) <= d * d
   /\ Far1(x, Col(s, n)) * Far1(x, Col(s, n)) + Far1(y, Row(s, n)) * Far1(y, Row(s, n)) >= d * d}
(* free cells reachable from the set Z going edge to edge                            *)
RECURSIVE Flood(_, _, _)
Flood(s, z, Z) ==
  LET next == {n \in Cells(s) \ (z \cup Z) : \E o \in Z : Abs(Row(s, n) - Row(s, o)) + Abs(Col(s, n) - Col(s, o)) = 1} IN
  IF next = {} THEN Z ELSE Flood(s, z, Z \cup next)
OnMap(s, x, y, d) == x - d >= 0 /\ y - d >= 0 /\ x + d < s.c * U /\ y + d < s.r * U
Border(s) == {n \in Cells(s) : Row(s, n) \in {0, s.r - 1} \/ Col(s, n) \in {0, s.c - 1}}
(* the new rim is a closed wall: nothing leaks from its middle off the map          *)
Tight(s, x, y, d, z) ==
  OnMap(s, x, y, d) /\ d >= 2 * U =>
    LET rim == z \cap RimMay(s, x, y, d) inner == Holds(s, x, y) \ rim
        reach == Flood(s, rim, inner) IN
    \A n \in reach : ~(Far1(x, Col(s, n)) * Far1(x, Col(s, n)) + Far1(y, Row(s, n)) * Far1(y, Row(s, n)) > (d + 12) * (d + 12))
Circle(s, a, w) == LET x == a[1] y == a[2] d == a[3] T(z) == Tight(s, x, y, d, z) IN
   Drawn(s, IF s.dy THEN Holds(s, x + d, y) ELSE {}, RimMay(s, x, y, d), w, T)
Apply(s, op, a, w) ==
  CASE op = "new" -> New(a)
    [] op = "void" -> Ret(s, "none", <<>>)         \* a ray on a map with no columns or no rows
    [] op = "rim" -> Ret(s, "ok", <<0>>)           \* is the rim of a circle of so many cells broken
    [] s.k = "none" -> Ret(s, "nothing", <<>>)
    [] op = "set" -> Set(s, a) [] op = "get" -> Get(s, a) [] op = "clear" -> Written(s, {})
    [] op = "point" -> Point(s, a) [] op = "cellof" -> CellOf(s, a)
    [] op = "poly" -> Poly(s, a, w) [] op = "circle" -> Circle(s, a, w) [] op = "ray" -> Ray(s, a, w)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
---------------------------------------------------------------------------------
(* every point of the map belongs to one cell                                     *)
OneCell == st.k = "map" => \A x \in 0..st.c * U - 1, y \in 0..st.r * U - 1 : Cardinality(Holds(st, x, y)) = 1
(* a ray ends where it starts exactly when it starts on a blocked cell            *)
StartBlocked == (out.op = "ray" /\ out.r = "ok" /\ Exact0(st, out.a[3], out.a[4]) /\ out.v[1] = 0) =>
   (\E n \in st.occ : Touch(st, out.a[1], out.a[2], 1, 0, n))
(* what a ray passed over is free: nothing blocked strictly before the hit         *)
ClearBefore == (out.op = "ray" /\ out.r = "ok") => \A n \in Must(st, out.a[1], out.a[2], out.a[3], out.a[4]) :
   (Entry(st, out.a[1], out.a[2], out.a[3], out.a[4], n) * Len1000(out.a[3], out.a[4])) \div Den(out.a[3], out.a[4]) + Tol >= out.v[1]
   \/ Holds(st, out.a[1], out.a[2]) \cap st.occ # {}
(* a write changes no cell it does not cover                                       *)
OnlyThatCell == [][(out'.op = "set" /\ st'.k = "map") => \A n \in Cells(st) : (n \in st.occ) # (n \in st'.occ) =>
   n = out'.a[1] * st.c + out'.a[2] /\ On(st, out'.a[1], out'.a[2])]_<<st, out>>
=================================================================================
