---------------------------------- MODULE Rot ----------------------------------
(* Exact rotations and rigid motions on integers: 3x3 matrices as 9-tuples      *)
(* (row by row), rigid motions as <<R, t>>. Turns about whole-number axes by     *)
(* twelfths of a turn, wherever the matrix is whole.                             *)
EXTENDS Lattice
Id3 == <<1, 0, 0, 0, 1, 0, 0, 0, 1>>
Z3 == <<0, 0, 0>>
E(m, i, j) == m[3 * (i - 1) + j]
(* explicit tuples: TLC evaluates function constructors anew at every access      *)
MM(a, b) == <<a[1] * b[1] + a[2] * b[4] + a[3] * b[7], a[1] * b[2] + a[2] * b[5] + a[3] * b[8], a[1] * b[3] + a[2] * b[6] + a[3] * b[9],
             a[4] * b[1] + a[5] * b[4] + a[6] * b[7], a[4] * b[2] + a[5] * b[5] + a[6] * b[8], a[4] * b[3] + a[5] * b[6] + a[6] * b[9],
             a[7] * b[1] + a[8] * b[4] + a[9] * b[7], a[7] * b[2] + a[8] * b[5] + a[9] * b[8], a[7] * b[3] + a[8] * b[6] + a[9] * b[9]>>
MV(a, x) == <<a[1] * x[1] + a[2] * x[2] + a[3] * x[3], a[4] * x[1] + a[5] * x[2] + a[6] * x[3], a[7] * x[1] + a[8] * x[2] + a[9] * x[3]>>
Tr(a) == <<a[1], a[4], a[7], a[2], a[5], a[8], a[3], a[6], a[9]>>
VA(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
VS(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
VX(x, k) == <<k * x[1], k * x[2], k * x[3]>>
VD(x, k) == TLCEval([i \in DOMAIN x |-> ExDiv(x[i], k)])
Cross(x, y) == <<x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1]>>
Hat(x) == <<0, -x[3], x[2], x[3], 0, -x[1], -x[2], x[1], 0>>
Outer(x, y) == <<x[1] * y[1], x[1] * y[2], x[1] * y[3], x[2] * y[1], x[2] * y[2], x[2] * y[3], x[3] * y[1], x[3] * y[2], x[3] * y[3]>>
Det3(a) == Dot(SubSeq(a, 1, 3), Cross(SubSeq(a, 4, 6), SubSeq(a, 7, 9)))
Proper(a) == MM(a, Tr(a)) = Id3 /\ Det3(a) = 1
(* rigid motions                                                                 *)
IdM == <<Id3, Z3>>
Mul(p, q) == <<MM(p[1], q[1]), VA(MV(p[1], q[2]), p[2])>>
Inv(p) == <<Tr(p[1]), VX(MV(Tr(p[1]), p[2]), -1)>>
Act(p, x) == VA(MV(p[1], x), p[2])
(* rotation matrix of a (not necessarily unit) whole quaternion <<w, x, y, z>>, when whole *)
QNorm(q) == Dot(q, q)
QMat(q) == LET w == q[1] v == <<q[2], q[3], q[4]>> n == QNorm(q)
               m == TLCEval([i \in 1..9 |-> (w * w - Dot(v, v)) * Id3[i] + 2 * Outer(v, v)[i] + 2 * w * Hat(v)[i]]) IN VD(m, n)
QMul(p, q) == <<p[1] * q[1] - p[2] * q[2] - p[3] * q[3] - p[4] * q[4],
                p[1] * q[2] + p[2] * q[1] + p[3] * q[4] - p[4] * q[3],
                p[1] * q[3] - p[2] * q[4] + p[3] * q[1] + p[4] * q[2],
                p[1] * q[4] + p[2] * q[3] - p[3] * q[2] + p[4] * q[1]>>
(* twice the cosine of n twelfths of a turn, and twice its sine squared divided out: Rodrigues on   *)
(* axes whose length squared is L: sine term is sin / sqrt L, whole only in the listed cases       *)
TwoCos(n) == CASE n % 12 = 0 -> 2 [] n % 12 \in {2, 10} -> 1 [] n % 12 \in {3, 9} -> 0 [] n % 12 \in {4, 8} -> -1 [] n % 12 = 6 -> -2
(* 2 sin(n pi/6) / sqrt L times L, for axis length squared L = k k or 3 k k       *)
RECURSIVE ISqrt(_, _)
ISqrt(x, k) == IF k * k >= x THEN k ELSE ISqrt(x, k + 1)
Square(x) == LET k == ISqrt(x, 0) IN k * k = x
SinRatio(n, L) ==       \* <<num, den>> of 2 sin / sqrt L
  CASE n % 6 = 0 -> <<0, 1>>
    [] n % 12 \in {3, 9} /\ Square(L) -> <<IF n % 12 = 3 THEN 2 ELSE -2, ISqrt(L, 0)>>
    [] n % 12 \in {2, 4, 8, 10} /\ L % 3 = 0 /\ Square(L \div 3) -> <<IF n % 12 < 6 THEN 1 ELSE -1, ISqrt(L \div 3, 0)>>
    [] OTHER -> Assert(FALSE, <<"turn", n, L>>)
(* a turn of n/12 about axis x (any length)                                        *)
Turn(x, n) == LET L == Dot(x, x) s == SinRatio(n, L) c == TwoCos(n) IN
   TLCEval([i \in 1..9 |-> ExDiv(c * L * s[2] * Id3[i] + s[1] * L * Hat(x)[i] + (2 - c) * s[2] * Outer(x, x)[i], 2 * L * s[2])])
(* twelfths of a turn of a whole rotation matrix                                    *)
Angle12(m) == CASE E(m, 1, 1) + E(m, 2, 2) + E(m, 3, 3) = 3 -> 0 [] E(m, 1, 1) + E(m, 2, 2) + E(m, 3, 3) = 1 -> 3
                [] E(m, 1, 1) + E(m, 2, 2) + E(m, 3, 3) = 0 -> 4 [] E(m, 1, 1) + E(m, 2, 2) + E(m, 3, 3) = -1 -> 6
                [] OTHER -> Assert(FALSE, <<"angle", m>>)
(* the 24 rotations of the cube, as whole quaternions                               *)
CubeQ == {q \in {-1, 0, 1} \X {-1, 0, 1} \X {-1, 0, 1} \X {-1, 0, 1} : Dot(q, q) \in {1, 2, 4}}
================================================================================
