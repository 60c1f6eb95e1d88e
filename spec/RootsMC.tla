------------------------------------ MODULE RootsMC ------------------------------------
(* Every way roots can repeat and pair up on a small grid, in every degree there is a     *)
(* formula for and some there is none for, then every way of moving them.                 *)
EXTENDS Roots, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Grid == -3..3
Real(n) == {q \in [1..n -> IF n <= 3 THEN Grid ELSE {-2, 0, 1, 3}] : \A k \in 1..(n - 1) : q[k] <= q[k + 1]}
Im(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<0, 1>>, <<-3, 4>>, <<2, 7>>} ELSE {<<0, 1, 0, 1>>, <<1, 4, 1, 4>>, <<2, 1, -2, 1>>, <<0, 3, 0, 5>>, <<-3, 2, 1, 7>>}
Make(l, n, m) == {C("make", <<l, n>> \o q \o p) : q \in Real(n), p \in Im(m)}
S1 == UNION {Make(1, n, 0) : n \in 0..5} \cup UNION {Make(-2, n, 1) : n \in 0..3} \cup Make(3, 0, 2) \cup Make(1, 1, 2)
S2 == {C("neg", <<>>), C("mirror", <<>>), C("half", <<>>), C("power", <<700>>), C("power", <<-700>>), C("shift", <<2>>), C("times", <<3>>), C("factor", <<-1>>)}
Ask(s) == {C("closed", <<n>>) : n \in {Deg(s) + 1} \cap 2..5} \cup {C("count", <<-61, 61>>), C("within", <<-4, 5, 1000, 400>>)}
Free == {C("raw", <<k>> \o q) : k \in 0..3, q \in {<<0, 0>>, <<0, 0, 0>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>, <<1, NAN>>, <<INF, 0, 1>>, <<1, 1, 1, NINF>>, <<1, 2, 3, NAN, 0>>}}
  \cup {C("line", <<x, y>>) : x \in {-5, 0, 7}, y \in {-3, 1, 4}}
Cmds == CASE Len(hist) = 0 -> S1 \cup Free
  [] Len(hist) = 1 /\ hist[1].op = "make" -> S2 \cup Ask(st) \cup {C("count", <<-4, 3>>), C("count", <<0, 4>>), C("within", <<-61, 61, 1, 400>>), C("bound", <<>>), C("closed", <<5>>), C("closed", <<3>>), C("count", <<3, 3>>), C("count", <<4, -4>>), C("count", <<NINF, INF>>),
       C("within", <<4, -4, 1, 99>>), C("within", <<-4, 4, 0, 99>>), C("within", <<-61, 61, 1000, 3>>), C("within", <<-61, 61, -1, 300>>), C("within", <<NAN, 4, 1, 99>>), C("within", <<-60, 60, 9000000, 400>>)}
  [] Len(hist) = 2 /\ hist[1].op = "make" /\ hist[2].op \in {c.op : c \in S2} -> Ask(st) \cup {C("bound", <<>>)}
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
