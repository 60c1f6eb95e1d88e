----------------------------------- MODULE IkMC -----------------------------------
EXTENDS Ik, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Free(r) == [i \in 1..3 * NJ(r) |-> 0]
Lim(r, lo, hi) == [i \in 1..3 * NJ(r) |-> IF Rob(r)[1 + ((i - 1) \div 3)][1] \in {Con, Flo} THEN 0 ELSE <<1, lo, hi>>[1 + ((i - 1) % 3)]]
Tgt == {<<0, 0, 0>>, <<120, 60, 0>>, <<100, 100, 157>>, <<-50, 140, 40>>, <<400, 300, 0>>, <<150, -20, -200>>}
Seeds(r) == {[i \in 1..NQ(r) |-> x[1 + (i % 3)]] : x \in {<<0, 0, 0>>, <<30, 30, 30>>, <<-120, 70, 40>>}}
Base(r, tool, t, lim, seed) == <<r, tool, 10, 10, 40, 30, 0, 0, 0>> \o t \o <<1>> \o lim \o seed
At2(b, i, x) == [b EXCEPT ![i] = x]
Plain == {Base(r, tl, t, l, sd) : r \in {0}, tl \in {2}, t \in Tgt, l \in {Free(0), Lim(0, -50, 125)}, sd \in Seeds(0)}
   \cup UNION {{Base(r, NJ(r), t, l, sd) : t \in Tgt, l \in {Free(r), Lim(r, -30, 100)}, sd \in Seeds(r)} : r \in 1..6}
Varied == UNION {{At2(b, i, x) : b \in {Base(r, NJ(r), t, Lim(r, -60, 150), sd) : t \in {<<120, 60, 0>>, <<-50, 140, 40>>}, sd \in Seeds(r)}} :
       r \in {0, 2, 5}, i \in {3, 4, 5, 6, 7, 8, 9, 13}, x \in {0, 1, 2}}
   \cup {At2(Base(r, NJ(r), <<120, 60, 0>>, Free(r), CHOOSE sd \in Seeds(r) : TRUE), IF i = 0 THEN 14 + 3 * NJ(r) ELSE i, x) : r \in {2, 4}, i \in {10, 12, 0}, x \in {NAN, INF}}
   \cup UNION {{Base(r, tl, <<100, 20, 0>>, Free(r), sd) : tl \in {NJ(r) - 1, NJ(r) + 1}, sd \in Seeds(r)} : r \in {2, 3}}
Ones == {<<wt, sec, x, y>> \o q \o ref : wt \in 0..2, sec \in {0, 1}, x \in {0, 100, -250}, y \in {0, 70}, q \in {<<0, 0, 0>>, <<40, 10, -90>>, <<-100, 0, 200>>}, ref \in {<<50, 50, 50>>, <<-30, 0, 80>>}}
Z(r, x, y) == [i \in 1..NQ(r) |-> IF i = 1 THEN x ELSE y]
LimR(r) == [i \in 1..3 * NJ(r) |-> LET j == 1 + ((i - 1) \div 3) IN IF Rob(r)[j][1] \in {Con, Flo} THEN 0 ELSE <<1, -40, 120>>[1 + ((i - 1) % 3)]]
Multis == UNION {{<<r, NJ(r), thr, 4>> \o t \o <<m>> \o Flat([i \in 1..m |-> sd[i]]) : t \in {<<120, 60, 60>>, <<100, 100, 157>>, <<400, 0, 0>>, <<0, 150, 30>>}, thr \in {0, 5, 100}, m \in {0, 3, 4, 5},
       sd \in {<<Z(r, 30, 30), Z(r, 60, -80), Z(r, 30, 658), Z(r, 658, 30), Z(r, 0, 0)>>, <<Z(r, -50, 90), Z(r, 120, -90), Z(r, 120, -90), Z(r, -508, 90), Z(r, 10, 10)>>}} : r \in {1, 3, 4}}
Jits == UNION {{<<r, c, sp, u, 4, rl>> \o l \o sd : c \in {0, 1, 3, 5}, sp \in {40, 100}, u \in {0, 3, 7}, rl \in {0, 1}, l \in {Free(r), LimR(r)}, sd \in Seeds(r)} : r \in {0, 3, 5, 6}}
MCInit == Init /\ hist = <<>>
Cmds == IF Len(hist) = 0 THEN {C("solve", a) : a \in Plain \cup Varied} \cup {C("one", a) : a \in Ones} \cup {C("multi", a) : a \in Multis} \cup {C("jitter", a) : a \in Jits} ELSE {}
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, Len(hist)>>
Emit == PrintT(ToJson(hist'))
===================================================================================
