---------------------------------- MODULE AutodiffMC ----------------------------------
(* Programs of up to three steps on two variables, and all functions around a lattice.    *)
EXTENDS Autodiff, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
U == <<1, 2, -1, 0, 3, 1, -2, 1, 0, 1>>
V == <<-1, 1, 2, -1, 1, -2, 1, 0, 2, -1>>
W == <<2, 0, 1, 0, -1, 3, 0, 0, 1, 0>>
Two == {"add", "sub", "mul", "max", "min", "copysign", "branch", "add=", "sub=", "mul="}
One == {"neg", "abs", "sign"}
Z(c) == c[1] # 0
Fits == \A k \in 1..4 : Mx(st[k]) <= 4000
Cmds == CASE Len(hist) = 0 -> {C("load", <<0>> \o u) : u \in {U, V, W, Cst(0)}} \cup {C("var", <<0, x>>) : x \in {-2, 0, 1}}
  \cup {C("class", <<x, y>>) : x \in {0, 1, NAN, INF, NINF}, y \in {0, NAN, INF}}
  \cup {C("plain", p) : p \in {p \in (0..40) \X (0..29) \X {0, 1, 2, 7, 10, 13, 18, 21, 24, 27} : ~Special(p[1], p[2], p[3])}}
  [] Len(hist) = 1 /\ hist[1].op \in {"class", "plain"} -> {}
  [] Len(hist) = 1 -> {C("load", <<1>> \o u) : u \in {U, V, W}} \cup {C("fix", <<1, x>>) : x \in {-1, 3}}
  [] Len(hist) \in {2, 3} -> IF ~Fits THEN {} ELSE
       LET u == st[1] v == st[2] IN
       {C(o, <<0, 0, 1>>) : o \in {o \in Two : o = "copysign" => Z(v) /\ Z(u)}}
       \cup {C(o, <<2, 1, 0>>) : o \in {o \in Two : o = "copysign" => Z(v) /\ Z(u)}}
       \cup {C(o, <<0, 0, 0>>) : o \in {o \in One : o = "sign" => Z(u)}}
       \cup (IF Abs(v[1]) = 1 /\ Mx(v) <= 8 /\ Mx(u) <= 400 THEN {C(o, <<0, 0, 1>>) : o \in {"div", "div=", "safe_div"}} \cup {C("recip", <<2, 1, 0>>), C("kdiv", <<2, 1, 5>>)} ELSE {})
       \cup (IF Abs(v[1]) = 1 /\ Mx(v) <= 3 THEN {C("powi", <<2, 1, n>>) : n \in -3..5} ELSE {})
       \cup {C("clamp", <<0, 0, lo, hi>>) : lo \in {-9, 0, 1}, hi \in {1, 2}} \cup {C("mul_add", <<3, 0, 1, 0>>)}
       \cup {C("kmul", <<0, 0, -3>>), C("ksub", <<0, 0, 2>>), C("kadd", <<0, 1, 7>>), C("cmp", <<0, 1>>), C("primal", <<0>>), C("derivs", <<0>>)}
       \cup (IF Len(hist) = 2 THEN {C("const", <<0, k, 6>>) : k \in 0..13} ELSE {})
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, [r |-> "ok", v |-> <<1, 1, 1, 1, 1>>])
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
