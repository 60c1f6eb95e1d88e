-------------------------------------- MODULE Fit ---------------------------------------
(* Least squares: whole linear problems by their normal equations; Gauss-Newton's walk over *)
(* residuals made of flat pieces, each of which it leaves for the piece's own zero; and what *)
(* holds of every answer, whatever the residuals.                                           *)
EXTENDS Lattice
VARIABLES st, out
GN == 0 DAMPED == 1 LM == 2
Halvings == 20
The(S) == CHOOSE x \in S : TRUE
Twos == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576>>
Two(n) == Twos[n + 1]
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
(* ---- linear: A x - b -------------------------------------------------------------------- *)
Rows(q, m, n) == TLCEval([i \in 1..m |-> SubSeq(q, (i - 1) * n + 1, i * n)])
Normal(A) == TLCEval(LET n == Len(A[1]) IN [i \in 1..n |-> [j \in 1..n |-> Sum([k \in 1..Len(A) |-> A[k][i] * A[k][j]])]])
Gradient(A, b, x) == [j \in 1..Len(A[1]) |-> Sum([k \in 1..Len(A) |-> A[k][j] * (Dot(A[k], x) - b[k])])]
Cost(A, b, x) == Sum([k \in 1..Len(A) |-> (Dot(A[k], x) - b[k]) * (Dot(A[k], x) - b[k])])
Det(M) == CASE Len(M) = 1 -> M[1][1] [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
  [] Len(M) = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1]) + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Zero(q) == \A i \in DOMAIN q : q[i] = 0
(* ---- pieces <<upto, a, b, c, d, p, q>>: the matrix (a b; c d) times (x - p, y - q), in 2^-8 --- *)
Sys(q) == [i \in 1..(Len(q) \div 7) |-> SubSeq(q, 7 * i - 6, 7 * i)]
RECURSIVE Piece(_, _)
Piece(f, x) == IF Len(f) = 1 \/ x < f[1][1] THEN f[1] ELSE Piece(Tail(f), x)
Both(f, x) == LET p == Piece(f, x[1]) IN IF ~Finite(p[6]) THEN <<p[6], p[6]>> ELSE <<p[2] * (x[1] - p[6]) + p[3] * (x[2] - p[7]), p[4] * (x[1] - p[6]) + p[5] * (x[2] - p[7])>>
Sq(v) == v[1] * v[1] + v[2] * v[2]
(* on the very edge of a piece rounding decides                                                   *)
Edge(f, x) == \E i \in DOMAIN f : x[1] = f[i][1]
Lost == [r |-> "lost", v |-> <<>>]
RECURSIVE Try(_, _, _, _, _, _)
Try(s, f, x, v, c, t) ==
  IF \E i \in 1..2 : (c[i] - x[i]) % Two(t) # 0 THEN [ok |-> FALSE, x |-> x, v |-> v]
  ELSE LET n == TLCEval([i \in 1..2 |-> x[i] + (c[i] - x[i]) \div Two(t)]) y == TLCEval(Both(f, n)) IN
       IF Edge(f, n) \/ (AllFinite(y) /\ Sq(y) = Sq(v)) THEN [ok |-> FALSE, x |-> x, v |-> v]
       ELSE IF s.how = GN \/ (AllFinite(y) /\ Sq(y) < Sq(v)) \/ t >= Halvings THEN [ok |-> TRUE, x |-> n, v |-> y] ELSE Try(s, f, x, v, c, t + 1)
(* the steps taken to come to rest at the zero of a piece                                         *)
RECURSIVE Walk(_, _, _, _, _)
Walk(s, f, x, v, k) ==
  IF Edge(f, x) THEN Lost
  ELSE IF k >= s.patience THEN [r |-> "DidNotConverge", v |-> <<>>]
  ELSE LET p == Piece(f, x[1]) c == <<p[6], p[7]>> IN
  IF p[2] * p[5] = p[3] * p[4] THEN Lost
  ELSE IF v = <<0, 0>> THEN [r |-> "ok", v |-> <<x[1], x[2], k>>]
  ELSE LET t == TLCEval(Try(s, f, x, v, c, 0)) IN
       IF ~t.ok THEN Lost ELSE IF ~AllFinite(t.v) THEN [r |-> "NonFinite", v |-> <<>>]
       ELSE The({Walk(s, f, n.x, n.v, n.k) : n \in {[x |-> t.x, v |-> t.v, k |-> k + 1]}})
(* ---- what is seen of any answer: reason, and these as facts: asked for there; its cost; questions  *)
(* counted; within the budget; no worse than the start or any other; the reason holds                             *)
Facts(s, v) == /\ v[1] \in 0..2 /\ v[2] = 1 /\ v[3] = 1 /\ v[4] = 1 /\ v[5] = 1 /\ (s.how = LM => v[6] = 1) /\ v[7] = 1
Fine(s, w, n) == w.r = "ok" /\ Len(w.v) = n /\ Facts(s, w.v)
Good == <<2, 1, 1, 1, 1, 1, 1>>
Patient(s) == s.patience >= (IF s.how = LM THEN 100 ELSE 25)
Init == st = [how |-> GN, patience |-> 100, bound |-> 0, up |-> 0] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "set" -> \* solver, patience, first step bound (power of two), own scaling, powers of two of both units
         Ret([how |-> a[1], patience |-> a[2], bound |-> a[3], up |-> a[6]], "ok", <<>>)
    [] op = "linear" -> \* unknowns, equations, matrix, right side, start: then the gradient and twice the cost less the start's
         LET n == a[1] m == a[2] A == Rows(SubSeq(a, 3, 2 + m * n), m, n) b == SubSeq(a, 3 + m * n, 2 + m * n + m) x == SubSeq(a, 3 + m * n + m, 2 + m * n + m + n) IN
         IF ~AllFinite(b) THEN Ret(s, "NonFinite", <<>>)
         ELSE IF m < n THEN OneOf(s, w, {"Linalg(Underdetermined)"} \cup (IF s.patience = 0 THEN {"DidNotConverge"} ELSE {}))
         ELSE IF s.patience = 0 THEN Ret(s, "DidNotConverge", <<>>)
         ELSE LET d == TLCEval(Det(Normal(A))) g == TLCEval(Gradient(A, b, x)) IN
              IF s.how # LM /\ d = 0 /\ ~Zero(g) THEN OneOf(s, w, {"Linalg(Singular)", "Linalg(IllConditioned)", "DidNotConverge"})
              ELSE IF w.r = "DidNotConverge" /\ ((~Patient(s)) \/ (s.how = LM /\ (Zero(x) \/ d = 0 \/ s.bound < 0)) \/ (s.how # LM /\ Zero(g) /\ Cost(A, b, x) = 0)) THEN Ret(s, w.r, <<>>)
              ELSE IF Fine(s, w, 7 + n) /\ (Zero(SubSeq(w.v, 8, 7 + n)) \/ (s.how = LM /\ Zero(x) /\ (s.up > 0 \/ d = 0))) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", Good \o Rep(n, 0))
    [] op = "walk" -> LET f == Sys(SubSeq(a, 3, Len(a))) v == Both(f, <<a[1], a[2]>>) t == IF s.how = LM THEN Lost ELSE IF AllFinite(v) THEN Walk(s, f, <<a[1], a[2]>>, v, 0) ELSE [r |-> "NonFinite", v |-> <<>>] IN
         IF ~AllFinite(v) THEN Ret(s, "NonFinite", <<>>)
         ELSE IF t = Lost THEN IF Fine(s, w, 10) THEN Ret(s, "ok", w.v) ELSE OneOf(s, w, {"DidNotConverge", "NonFinite"} \cup (IF s.how = LM THEN {} ELSE {"Linalg(Singular)", "Linalg(IllConditioned)"}))
         ELSE IF t.r # "ok" THEN Ret(s, t.r, <<>>)
         ELSE IF w.r = "DidNotConverge" /\ s.patience < t.v[3] + 30 THEN Ret(s, w.r, <<>>)
         ELSE IF Fine(s, w, 10) /\ w.v[8] = t.v[1] /\ w.v[9] = t.v[2] /\ (s.how = GN => w.v[10] \in (t.v[3] + 1)..(t.v[3] + IF t.v[1] = 0 /\ t.v[2] = 0 THEN 30 ELSE 3)) THEN Ret(s, "ok", w.v) ELSE Ret(s, "ok", Good \o <<t.v[1], t.v[2], t.v[3] + 1>>)
    [] op = "wild" -> \* which residuals, parameter, start; failures say whether something not finite was met
         IF Fine(s, w, 7) THEN Ret(s, "ok", w.v)
         ELSE IF w.r \in ({"DidNotConverge"} \cup (IF s.how = LM THEN {} ELSE {"Linalg(Singular)", "Linalg(IllConditioned)"})) THEN Ret(s, w.r, <<>>)
         ELSE IF w.r = "NonFinite" /\ a[1] >= 4 THEN Ret(s, w.r, <<>>) ELSE Ret(s, "ok", Good)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
========================================================================================
