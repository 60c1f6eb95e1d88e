-------------------------------------- MODULE Pcg ---------------------------------------
(* The PCG-XSH-RR 64/32 generator, bit by bit, and the draws built from a source of words: *)
(* 64-bit words, unit draws and pairs of normal draws whose second is kept for later.      *)
EXTENDS Series, Sequences
VARIABLES st, out
(* ---- 64-bit words: eight bytes, lowest first ---------------------------------------------- *)
Multiplier == <<45, 127, 149, 76, 45, 244, 81, 88>>
DefaultStream == <<219, 91, 185, 148, 203, 57, 62, 218>>
RECURSIVE Carry(_, _, _)
Carry(q, k, c) == IF k > 8 THEN <<>> ELSE <<(q[k] + c) % 256>> \o Carry(q, k + 1, (q[k] + c) \div 256)
Plus(a, b) == TLCEval(Carry(TLCEval([k \in 1..8 |-> a[k] + b[k]]), 1, 0))
Times(a, b) == TLCEval(Carry(TLCEval([k \in 1..8 |-> Sum([i \in 1..k |-> a[i] * b[k + 1 - i]])]), 1, 0))
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Bit(a, n) == (a[1 + n \div 8] \div P2[1 + (n % 8)]) % 2
Odd(a) == Plus(Plus(a, a), <<1, 0, 0, 0, 0, 0, 0, 0>>)
Bytes(q) == [i \in 1..8 |-> LET h == q[4 - (i - 1) \div 2] IN IF i % 2 = 1 THEN h % 256 ELSE h \div 256]     \* from four halves, highest first
Step(g) == Plus(Times(g.s, Multiplier), g.inc)
(* the word <<high half, low half>> made from a state: high bits folded down, then turned       *)
Mix(s) == LET xs == TLCEval([k \in 0..31 |-> (Bit(s, k + 27) + (IF k + 45 < 64 THEN Bit(s, k + 45) ELSE 0)) % 2]) t == s[8] \div 8
              half(o) == Sum([k \in 1..16 |-> xs[(k - 1 + o + t) % 32] * P2[k]]) IN TLCEval(<<half(16), half(0)>>)
Nought == <<0, 0, 0, 0, 0, 0, 0, 0>>
Fresh(ty, seed, stream) == LET inc == Odd(stream) one == [s |-> Plus(Step([s |-> Nought, inc |-> inc]), seed), inc |-> inc] IN
  [ty |-> ty, s |-> Step(one), inc |-> inc, words |-> <<>>, kept |-> <<>>, lost |-> FALSE]
(* ---- a source: a generator (s not empty), or a list of words followed by one word for ever --- *)
Rest == <<24576, 0>>
Scripted(ty, q) == [ty |-> ty, s |-> <<>>, inc |-> <<>>, words |-> [i \in 1..(Len(q) \div 2) |-> <<q[2 * i - 1], q[2 * i]>>], kept |-> <<>>, lost |-> FALSE]
Word(g) == IF g.s # <<>> THEN Mix(g.s) ELSE IF g.words = <<>> THEN Rest ELSE g.words[1]
After(g) == IF g.s # <<>> THEN [g EXCEPT !.s = Step(g)] ELSE IF g.words = <<>> THEN g ELSE [g EXCEPT !.words = Tail(@)]
(* ---- a unit draw: the highest 53 (or 24) bits of a 64-bit (or 32-bit) word as a fraction ----- *)
Draw(g) == IF g.ty = 1 THEN LET w == Word(g) IN [g |-> After(g), v |-> <<w[1] * 256 + w[2] \div 256>>, hi |-> w[1] \div 2, exact |-> w[1] % 2 = 0 /\ w[2] \div 256 = 0]
  ELSE LET w == Word(g) h == TLCEval(After(g)) x == Word(h) IN
    [g |-> After(h), v |-> <<w[1] * 32 + w[2] \div 2048, (w[2] % 2048) * 32 + x[1] \div 2048, (x[1] % 2048) * 32 + x[2] \div 2048>>,
     hi |-> w[1] \div 2, exact |-> w[1] % 2 = 0 /\ w[2] = 0 /\ x[1] = 0 /\ x[2] \div 2048 = 0]
(* ---- a normal draw: pairs (x, y) in the square until one lies inside the circle --------------- *)
Whole1 == 16384
Full == 268435456
Out(x) == IF x >= 0 THEN x + 1 ELSE -x                                                 \* size rounded away from the centre
In(x) == IF x >= 0 THEN x ELSE -x - 1
Sides(x, y) == LET X == x.hi - Whole1 Y == y.hi - Whole1 IN
  IF x.exact /\ y.exact THEN LET q == X * X + Y * Y IN IF q = 0 \/ q >= Full THEN "out" ELSE IF q < Full - 64 THEN "in" ELSE "unsure"
  ELSE IF In(X) * In(X) + In(Y) * In(Y) >= Full THEN "out" ELSE IF Out(X) * Out(X) + Out(Y) * Out(Y) < Full - 64 THEN "in" ELSE "unsure"
Near(x, y, e) == Abs(x - y) <= e
RECURSIVE LogOf(_, _)
LogOf(q, k) == IF q < Full \div 2 THEN LogOf(2 * q, k + 1) ELSE Log4(RDiv(q, 26844)) - (k * 69315) \div 10         \* log of q / Full, in ten-thousandths
Size(x) == IF x <= 0 THEN 0 ELSE IF x < 100000 THEN Root(10000 * x) ELSE Root4(x)
(* the normal draw z of coordinate x of a pair: x / r times the root of -2 log r^2, within what      *)
(* the leading bits settle                                                                          *)
Rational(X, Y) == LET q == X * X + Y * Y IN IF q < 262144 THEN [c |-> 0, tol |-> -1] ELSE
  LET r == Root(q) IN [c |-> RDiv(X * Size(-2 * LogOf(q, 0)), r), tol |-> 60 + (300000 \div r) + (IF q > Full - (Full \div 1000) THEN 600 ELSE 0)]
Matches(p, z) == Finite(z) /\ LET e == Rational(p[1], p[2]) IN e.tol < 0 \/ Near(z, e.c, e.tol)
RECURSIVE Normal(_, _, _)
Normal(g, w, k) ==
  LET x == TLCEval(Draw(g)) y == TLCEval(Draw(x.g)) s == Sides(x, y) X == x.hi - Whole1 Y == y.hi - Whole1
      take == [g |-> [y.g EXCEPT !.kept = <<Y, X>> \o y.v \o x.v], p |-> <<X, Y>>] IN
  IF s = "in" THEN take ELSE IF s = "unsure" THEN [take EXCEPT !.g.lost = TRUE] ELSE Normal(y.g, w, k + 1)
OneOf(s, w, names) == Ret(s, IF w.r \in names THEN w.r ELSE CHOOSE x \in names : TRUE, <<>>)
Init == st = [i \in 1..3 |-> Fresh(0, Nought, DefaultStream)] /\ out = [op |-> "start", a |-> <<>>, r |-> "ok", v |-> <<>>]
Apply(s, op, a, w) ==
  LET i == a[1] g == s[i] IN
  CASE op = "new" -> Ret([s EXCEPT ![i] = Fresh(a[2], Bytes(SubSeq(a, 3, 6)), DefaultStream)], "ok", <<>>)
    [] op = "stream" -> Ret([s EXCEPT ![i] = Fresh(a[2], Bytes(SubSeq(a, 3, 6)), Bytes(SubSeq(a, 7, 10)))], "ok", <<>>)
    [] op = "script" -> Ret([s EXCEPT ![i] = Scripted(a[2], SubSeq(a, 3, Len(a)))], "ok", <<>>)
    [] op = "clone" -> Ret([s EXCEPT ![a[2]] = g], "ok", <<>>)
    [] op = "same" /\ (g.lost \/ s[a[2]].lost) -> Ret(s, "ok", IF w.r = "ok" /\ Len(w.v) = 1 /\ (i = a[2] => w.v = <<1>>) THEN w.v ELSE <<1>>)
    [] op = "same" -> Ret(s, "ok", <<B(s[i] = s[a[2]])>>)
    [] g.lost -> \* whether a pair on the very rim was taken is not settled: neither is what follows
         Ret(s, "ok", IF w.r = "ok" THEN w.v ELSE <<>>)
    [] op = "u32" -> Ret([s EXCEPT ![i] = After(g)], "ok", Word(g))
    [] op = "u64" -> LET h == After(g) IN Ret([s EXCEPT ![i] = After(h)], "ok", Word(g) \o Word(h))
    [] op = "unit" -> LET d == Draw(g) IN Ret([s EXCEPT ![i] = d.g], "ok", d.v)
    [] op = "normal" -> \* in ten-thousandths
         LET n == IF g.kept # <<>> THEN [g |-> [g EXCEPT !.kept = <<>>], p |-> SubSeq(g.kept, 1, 2)] ELSE TLCEval(Normal(g, w, 0)) IN
         Ret([s EXCEPT ![i] = n.g], "ok", IF w.r = "ok" /\ Len(w.v) = 1 /\ (n.g.lost \/ Matches(n.p, w.v[1])) THEN w.v ELSE <<Rational(n.p[1], n.p[2]).c>>)
    [] OTHER -> Assert(FALSE, op)
Do(op, a, w) == \E r \in {Apply(st, op, a, w)} : st' = r.st /\ out' = [op |-> op, a |-> a, r |-> r.r, v |-> r.v]
(* a unit draw is a fraction below one                                                      *)
UnitOk == out.op = "unit" => \A k \in DOMAIN out.v : out.v[k] >= 0 /\ out.v[k] < (IF Len(out.v) = 1 THEN 16777216 ELSE IF k = 1 THEN 2097152 ELSE 65536)
IncOdd == \A k \in 1..3 : st[k].s = <<>> \/ st[k].inc[1] % 2 = 1
========================================================================================
