------------------------------------- MODULE Search -------------------------------------
(* Root finders on functions made of straight pieces, whose arithmetic is exact: the whole *)
(* search of bisection and of Newton's method, and what any bracketing search may return.  *)
(* Arguments and values are in 2^-20; a system's in 2^-8.                                  *)
EXTENDS Lattice
VARIABLES st, out
U == 1048576
Halvings == 20
Such(s, w, n, p) == IF w.r = "ok" /\ Len(w.v) = n /\ p THEN Ret(s, "ok", w.v) ELSE Ret(s, "other", <<>>)
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Twos == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>
Two(n) == Twos[n + 1]
The(S) == CHOOSE x \in S : TRUE      \* also: worked out now
(* a function: <<upto, slope, at zero>>, the first whose bound is above the argument          *)
Fun(q) == [i \in 1..(Len(q) \div 3) |-> SubSeq(q, 3 * i - 2, 3 * i)]
RECURSIVE Piece(_, _)
Piece(f, x) == IF Len(f) = 1 \/ x < f[1][1] THEN f[1] ELSE Piece(Tail(f), x)
At(f, x) == LET p == Piece(f, x) IN IF Finite(p[3]) THEN p[2] * x + p[3] ELSE p[3]
Sound(f) == \A i \in DOMAIN f : Finite(f[i][3])
Same(x, y) == (x >= 0) <=> (y >= 0)
(* no more than 2^-j (1 + |x|), nothing for j = -1                                             *)
Small(w, x, j) == IF j < 0 THEN w = 0 ELSE w <= (U + Abs(x)) \div Two(j)
RES == 0 BRACKET == 1 STEP == 2
BEYOND == [r |-> "beyond", v |-> <<>>]
OK(v) == [r |-> "ok", v |-> v]
Fail(r) == [r |-> r, v |-> <<>>]
(* kind, root, value there, rounds, evaluations                                                *)
RECURSIVE Halve(_, _, _, _, _, _)
Halve(s, f, lo, vlo, hi, k) ==
  IF k > s.budget THEN Fail("DidNotConverge")
  ELSE IF (hi - lo) % 2 # 0 THEN BEYOND
  ELSE LET m == TLCEval(lo + (hi - lo) \div 2) v == TLCEval(At(f, m)) IN
       IF ~Finite(v) THEN Fail("NonFinite")
       ELSE IF Abs(v) <= s.ftol THEN OK(<<RES, m, v, k, k + 2>>)
       ELSE IF Small(hi - lo, m, s.xtol) THEN OK(<<BRACKET, m, v, k, k + 2>>)
       ELSE IF Same(v, vlo) THEN Halve(s, f, m, v, hi, k + 1) ELSE Halve(s, f, lo, vlo, m, k + 1)
(* what any bracket is first asked                                                              *)
Ends(f, a, b) == LET x == At(f, a) y == At(f, b) IN
  IF ~Finite(x) \/ ~Finite(y) THEN Fail("NonFinite") ELSE IF x = 0 THEN OK(<<RES, a, 0, 0, 2>>) ELSE IF y = 0 THEN OK(<<RES, b, 0, 0, 2>>)
  ELSE IF Same(x, y) THEN Fail("InvalidBracket") ELSE BEYOND
Bisected(s, f, a, b) == LET e == Ends(f, a, b) IN IF e # BEYOND THEN e ELSE IF a <= b THEN Halve(s, f, a, At(f, a), b, 1) ELSE Halve(s, f, b, At(f, b), a, 1)
(* a Newton step leads to the root of the piece; halved while it does not help                   *)
RECURSIVE Try(_, _, _, _, _, _)
Try(s, f, x, v, step, t) ==
  IF step % Two(t) # 0 THEN [ok |-> FALSE, x |-> 0, v |-> 0]
  ELSE LET c == TLCEval(x - step \div Two(t)) y == TLCEval(At(f, c)) IN
       IF ~s.damped \/ (Finite(y) /\ Abs(y) < Abs(v)) \/ t >= Halvings THEN [ok |-> TRUE, x |-> c, v |-> y] ELSE Try(s, f, x, v, step, t + 1)
RECURSIVE Newton(_, _, _, _, _)
Newton(s, f, x, v, k) ==
  IF k > s.budget THEN Fail("DidNotConverge")
  ELSE IF Abs(v) <= s.ftol THEN OK(<<RES, x, v, k>>)
  ELSE LET p == Piece(f, x) IN IF p[2] = 0 THEN Fail("Linalg(Singular)")
  ELSE LET step == TLCEval(ExDiv(v, p[2])) t == TLCEval(Try(s, f, x, v, step, 0)) IN
       IF ~t.ok THEN BEYOND ELSE IF ~Finite(t.v) THEN Fail("NonFinite")
       ELSE IF Small(Abs(t.x - x), t.x, s.xtol) THEN OK(<<STEP, t.x, t.v, k>>)
       ELSE The({Newton(s, f, n.x, n.v, n.k) : n \in {[x |-> t.x, v |-> t.v, k |-> k + 1]}})
(* ---- two equations: pieces <<upto, a, b, c, d, p, q>>: the matrix (a b; c d) times (x - p, y - q) ---- *)
Sys(q) == [i \in 1..(Len(q) \div 7) |-> SubSeq(q, 7 * i - 6, 7 * i)]
Both(f, x) == LET p == Piece(f, x[1]) IN IF ~Finite(p[6]) THEN <<p[6], p[6]>> ELSE <<p[2] * (x[1] - p[6]) + p[3] * (x[2] - p[7]), p[4] * (x[1] - p[6]) + p[5] * (x[2] - p[7])>>
Sq(v) == v[1] * v[1] + v[2] * v[2]
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Root(n) == Isqrt(n, 0, 46341)
RECURSIVE Try2(_, _, _, _, _, _)
Try2(s, f, x, v, c, t) ==
  IF \E i \in 1..2 : (c[i] - x[i]) % Two(t) # 0 THEN [ok |-> FALSE, x |-> x, v |-> v]
  ELSE LET n == TLCEval([i \in 1..2 |-> x[i] + (c[i] - x[i]) \div Two(t)]) y == TLCEval(Both(f, n)) IN
       IF ~s.damped \/ (AllFinite(y) /\ Sq(y) < Sq(v)) \/ t >= Halvings THEN [ok |-> TRUE, x |-> n, v |-> y] ELSE Try2(s, f, x, v, c, t + 1)
RECURSIVE System(_, _, _, _, _)
System(s, f, x, v, k) ==
  IF k > s.budget THEN Fail("DidNotConverge")
  ELSE IF Sq(v) <= (s.ftol \div 4096) * (s.ftol \div 4096) THEN OK(<<RES, x[1], x[2], Sq(v), k>>)
  ELSE LET p == Piece(f, x[1]) IN IF p[2] * p[5] = p[3] * p[4] THEN Fail("Linalg(Singular)")
  ELSE LET t == TLCEval(Try2(s, f, x, v, <<p[6], p[7]>>, 0)) IN
       IF ~t.ok THEN BEYOND ELSE IF ~AllFinite(t.v) THEN Fail("NonFinite")
       ELSE LET m == IF s.xtol < 0 THEN 0 ELSE TLCEval(Root(Sq(<<t.x[1] - x[1], t.x[2] - x[2]>>))) n == IF s.xtol < 0 THEN 0 ELSE TLCEval(Root(Sq(t.x))) j == MaxOf(s.xtol, 0)
                yes == s.xtol >= 0 /\ (m + 1) * Two(j) <= 256 + n no == s.xtol < 0 \/ m * Two(j) > 257 + n IN
            IF yes THEN OK(<<STEP, t.x[1], t.x[2], Sq(t.v), k>>) ELSE IF ~no THEN BEYOND ELSE The({System(s, f, y.x, y.v, y.k) : y \in {[x |-> t.x, v |-> t.v, k |-> k + 1]}})
(* -------------------------------------------------------------------------------------------------------- *)
(* what holds of every answer that is not followed step by step                                               *)
True(s, f, v) == /\ v[1] \in {RES, BRACKET, STEP} /\ v[4] <= s.budget
                 /\ (v[1] = RES => Abs(v[3]) <= s.ftol)
Between(x, a, b) == MinOf(a, b) <= x /\ x <= MaxOf(a, b)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)
(* how many halvings make a bracket small enough, all bounds of the worst search built on them                 *)
Worst(s, a, b) == LET n == IF s.xtol < 0 THEN 60 ELSE Log2(Abs(b - a) \div U + 1) + s.xtol + 2 IN n * n
Init == st = [xtol |-> 12, ftol |-> 0, budget |-> 100, damped |-> FALSE] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  CASE op = "set" -> \* power of two of the step tolerance (-1: none), value tolerance, budget, backtracking, powers of two of both units
         Ret([xtol |-> a[1], ftol |-> a[2], budget |-> a[3], damped |-> a[4] = 1], "ok", <<>>)
    [] op = "bisect" -> LET f == Fun(SubSeq(a, 3, Len(a))) t == Bisected(s, f, a[1], a[2]) IN
         IF t # BEYOND THEN Ret(s, t.r, IF t.r = "ok" THEN t.v \o <<1, 1>> ELSE <<>>)
         ELSE IF w.r = "DidNotConverge" THEN Ret(s, w.r, <<>>) ELSE IF w.r = "NonFinite" /\ ~Sound(f) THEN Ret(s, w.r, <<>>)
         ELSE Such(s, w, 7, True(s, f, w.v) /\ w.v[1] # STEP /\ w.v[6] = 1 /\ w.v[7] = 1)
    [] op = "brent" -> \* also how far the nearest value of the other sign is, in thousandths of the tolerance
         LET f == Fun(SubSeq(a, 3, Len(a))) e == Ends(f, a[1], a[2]) IN
         IF e # BEYOND THEN Ret(s, e.r, IF e.r = "ok" THEN e.v \o <<1, 1, 0>> ELSE <<>>)
         ELSE IF w.r = "DidNotConverge" /\ ((~Sound(f)) \/ s.budget < Worst(s, a[1], a[2])) THEN Ret(s, w.r, <<>>)
         ELSE IF w.r = "NonFinite" /\ ~Sound(f) THEN Ret(s, w.r, <<>>)
         ELSE Such(s, w, 8, /\ True(s, f, w.v) /\ w.v[1] # STEP /\ w.v[5] <= w.v[4] + 2 /\ w.v[6] = 1 /\ w.v[7] = 1
                            /\ Between(w.v[2], MinOf(a[1], a[2]) - 1, MaxOf(a[1], a[2]) + 1)
                            /\ (w.v[1] = BRACKET => w.v[8] <= 2000)
                            /\ (LET near == {At(f, w.v[2] + d) : d \in {-1, 0, 1}} IN \E y \in near : Finite(y) /\ Abs(y - w.v[3]) <= 9))
    [] op = "newton" -> LET f == Fun(SubSeq(a, 2, Len(a))) v == At(f, a[1]) t == IF Finite(v) THEN Newton(s, f, a[1], v, 1) ELSE Fail("NonFinite") IN
         IF t # BEYOND THEN Ret(s, t.r, IF t.r = "ok" THEN t.v \o <<1>> ELSE <<>>)
         ELSE IF w.r \in {"DidNotConverge", "Linalg(Singular)", "NonFinite"} THEN Ret(s, w.r, <<>>)
         ELSE Such(s, w, 5, True(s, f, w.v) /\ w.v[1] # BRACKET /\ w.v[5] = 1)
    [] op = "system" -> LET f == Sys(SubSeq(a, 3, Len(a))) v == Both(f, <<a[1], a[2]>>) t == IF AllFinite(v) THEN System(s, f, <<a[1], a[2]>>, v, 1) ELSE Fail("NonFinite") IN
         IF t # BEYOND THEN Ret(s, t.r, IF t.r = "ok" THEN t.v \o <<1>> ELSE <<>>)
         ELSE IF w.r \in {"DidNotConverge", "Linalg(Singular)", "NonFinite"} THEN Ret(s, w.r, <<>>)
         ELSE Such(s, w, 6, w.v[1] \in {RES, STEP} /\ w.v[5] <= s.budget /\ w.v[6] = 1)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* ---- what follows from the searches themselves --------------------------------------------------------- *)
Found == out.r = "ok" /\ out.op \in {"bisect", "newton"}
Inside == (Found /\ out.op = "bisect") => Between(out.v[2], out.a[1], out.a[2])
Truthful == Found => LET f == Fun(SubSeq(out.a, IF out.op = "bisect" THEN 3 ELSE 2, Len(out.a))) IN out.v[3] = At(f, out.v[2]) /\ (out.v[1] = RES => Abs(out.v[3]) <= st.ftol)
Thrifty == Found => out.v[4] <= MaxOf(st.budget, 0)
(* bisection of a sound function over a proper bracket needs no more rounds than halvings                     *)
Certain == (out.op = "bisect" /\ out.r = "DidNotConverge" /\ st.xtol >= 0) => st.budget < Log2(Abs(out.a[1] - out.a[2]) \div U + 1) + st.xtol + 2
========================================================================================
