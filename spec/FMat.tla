--------------------------------------- MODULE FMat ---------------------------------------
(* Vectors and matrices in ten-thousandths. No state of its own.                             *)
EXTENDS Series, Sequences
The(S) == CHOOSE x \in S : TRUE
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Near(x, y, e) == Abs(x - y) <= e
(* ---- matrices in ten-thousandths -------------------------------------------------------- *)
In8(q) == [i \in 1..Len(q) |-> IF Finite(q[i]) THEN q[i] * 1250 ELSE q[i]]
Rows(q, n) == TLCEval([i \in 1..(Len(q) \div n) |-> SubSeq(q, (i - 1) * n + 1, i * n)])
Tr(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
FQ(x, y) == IF x = 0 THEN 0 ELSE IF x = ONE THEN y ELSE FM(x, y)
XM(A, C) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(C[1]) |-> Sum([k \in 1..Len(C) |-> FQ(A[i][k], C[k][j])])]])
XV(A, x) == TLCEval([i \in 1..Len(A) |-> Sum([k \in 1..Len(x) |-> FQ(A[i][k], x[k])])])
VPlus(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
VMinus(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] - y[i]])
MPlus(A, C) == TLCEval([i \in 1..Len(A) |-> VPlus(A[i], C[i])])
MMinus(A, C) == TLCEval([i \in 1..Len(A) |-> VMinus(A[i], C[i])])
Unit(n, d) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d ELSE 0]]
Zeros(n) == [i \in 1..n |-> 0]
Upper(A) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i <= j THEN A[i][j] ELSE A[j][i]]])
Finites(q) == \A i \in DOMAIN q : Finite(q[i])
FiniteM(A) == \A i \in DOMAIN A : Finites(A[i])
Size(q) == SetMax({0} \cup {Abs(q[i]) : i \in DOMAIN q})
SizeM(A) == SetMax({Size(A[i]) : i \in DOMAIN A})
(* what is left after the first unknown of a symmetric system is eliminated                   *)
Less1(A) == TLCEval([i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> A[i + 1][j + 1] - FM(FD(A[i + 1][1], A[1][1]), A[1][j + 1])]])
(* positive definite: "yes", "no", or too close to tell                                       *)
RECURSIVE Definite(_)
Definite(A) == IF A = <<>> THEN "yes" ELSE IF A[1][1] < -60 THEN "no" ELSE IF A[1][1] <= 60 THEN "edge" ELSE The({Definite(L) : L \in {Less1(A)}})
(* X with S X = C, for a symmetric positive definite S                                        *)
RECURSIVE Elim(_, _)
Elim(S, C) == IF Len(S) = 1 THEN TLCEval(<<[c \in 1..Len(C[1]) |-> FD(C[1][c], S[1][1])]>>)
  ELSE The({The({TLCEval(<<[c \in 1..Len(C[1]) |-> FD(C[1][c] - Sum([j \in 1..Len(X) |-> FQ(S[1][j + 1], X[j][c])]), S[1][1])]>> \o X)
         : X \in {Elim(L, D) : L \in {Less1(S)}, D \in {TLCEval([i \in 1..(Len(S) - 1) |-> [c \in 1..Len(C[1]) |-> C[i + 1][c] - FQ(f[i], C[1][c])]])}}})
       : f \in {TLCEval([i \in 1..(Len(S) - 1) |-> FD(S[i + 1][1], S[1][1])])}})
(* three-dimensional: the cross-product matrix, and the rotation by a rotation vector          *)
Hat(w) == <<<<0, -w[3], w[2]>>, <<w[3], 0, -w[1]>>, <<-w[2], w[1], 0>>>>
MTimes(A, c) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> FQ(c, A[i][j])]])
ExpM(w) == LET q == TLCEval(FM(w[1], w[1]) + FM(w[2], w[2]) + FM(w[3], w[3])) t == TLCEval(IF q < 200000 THEN Root(10000 * q) ELSE Root4(q)) W == Hat(w)
               a == IF t < 500 THEN ONE - RDiv(q, 6) ELSE FD(Sin4(t), t) b == IF t < 500 THEN (ONE \div 2) - RDiv(q, 24) ELSE FD(ONE - Cos4(t), q)
           IN MPlus(MPlus(Unit(3, ONE), MTimes(W, a)), MTimes(XM(W, W), b))
===========================================================================================
