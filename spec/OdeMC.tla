------------------------------------- MODULE OdeMC --------------------------------------
(* Every pattern of step settings against every kind of problem, forwards and backwards,  *)
(* grids of every shape, and every pair of body turns.                                     *)
EXTENDS Ode, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Sets == {C("set", <<r, f, lo, hi, b, u>>) : r \in {6, 8}, f \in {0, 1, 40}, lo \in {0, 4, 100}, hi \in {0, 2, 30}, b \in {3, 30, 100000}, u \in {0, -30}}
Probs == {<<0, 1, -2, 0, 0, 0, 0, 5, 1, 0, 0, 0, 0>>, <<0, 0, 0, 1, 2, 0, 0, 0, 0, 0, 3, -4, 0>>, <<1, 1, 2, 1>>, <<2, 0, 0, 1>>, <<3, 1, 0, 1>>}
Goes == {C("go", <<x[1], x[2], 60>> \o q) : x \in {<<0, 2>>, <<2, -1>>}, q \in {p \in Probs : p[1] < 2}} \cup {C("go", <<0, 2, 60>> \o q) : q \in {p \in Probs : p[1] > 1}} \cup {C("go", <<x[1], x[2], 60>> \o <<1, 1, 2, 1>>) : x \in {<<0, 0>>, <<NAN, 1>>, <<0, INF>>}}
P2 == <<0, 1, -2, 4, 0, -2, 0, 0, 0, 6, 4, 0, 0>>
Grids == {C("grid", <<0, 192, m, Len(T)>> \o T \o P2) : m \in {0, 1, -1}, T \in {<<4>>, <<0, 4>>, <<1, 2, 2, 7>>, <<-1, -5>>, <<3, 2, 8>>, <<-1, 4>>, <<0>>, <<0, NAN>>, <<4, 3>>}} \cup {C("grid", <<1, 192, 0, 0>> \o P2)}
Axes == {<<<<1, 0, 0>>, 3>>, <<<<0, 0, -1>>, 9>>, <<<<0, 1, 0>>, 6>>, <<<<1, 1, 1>>, 4>>, <<<<0, 1, -1>>, 6>>, <<<<1, -1, 1>>, 8>>, <<<<0, 1, 0>>, 12>>}
Qs == {q \in CubeQ : q[1] >= 0}
Turns == {C("turn", q \o x[1] \o <<k, x[2] - k, d>>) : q \in Qs, x \in Axes, k \in {0, 5, 12}, d \in {1, 4, -2}}
     \cup {C("attitude", q \o x[1] \o <<k, x[2] - k, n, h, b>>) : q \in {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 1, 1, 1>>}, x \in Axes, k \in {0, 7}, n \in {0, 1, 3}, h \in {1, 3, 0, -1, NAN, INF}, b \in {-1, 0, 2}}
Fixed4 == {C("fixed", <<t, 192, n, h, 0, 1, -2>> \o c) : t \in {-1, 0}, n \in {0, 1, 3}, h \in {4, -4, 8}, c \in {<<0, 0, 0, 4, 0, 1, 2, 0, 0, 0>>, <<1, 0, 3, 0, 0, 0, 0, 0, -4, 0>>}}
T(c, i, j, k) == <<c, i, j, k>>
Fields == {<<T(1, 0, 2, 0)>>, <<T(1, 0, 0, 1)>>, <<T(1, 1, 1, 0), T(-1, 0, 0, 2)>>, <<T(2, 0, 1, 1)>>, <<T(1, 2, 0, 1), T(1, 0, 0, 0)>>, <<T(-1, 0, 3, 0)>>}
Series == {C("taylor", <<t, x, 1, Len(f)>> \o Flat(f) \o Flat(g)) : t \in {0, 1}, x \in {1, -2}, f \in Fields, g \in Fields}
Orders == {C("order", <<m, p, k>>) : m \in 0..2, p \in 0..3, k \in 1..3}
Cmds == CASE Len(hist) = 0 -> Sets \cup Turns \cup Fixed4 \cup Series \cup Orders
  [] Len(hist) = 1 /\ hist[1].op = "set" -> Goes \cup (IF hist[1].a[1] = 6 THEN Grids ELSE {})
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
