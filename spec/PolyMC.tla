------------------------------------ MODULE PolyMC ------------------------------------
(* Every operation, with every room its result could be given, on polynomials with zero,  *)
(* vanishing and cancelling coefficients, and what is left evaluated.                      *)
EXTENDS Poly, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Caps == {1, 2, 3, 4, 5, 8}
Qs == {<<0>>, <<2>>, <<0, 0, 0>>, <<-1, 1>>, <<1, 1, 0>>, <<0, 1>>, <<2, 0, -1>>, <<1, 2, 3, 1>>, <<0, 0, 1, 0>>}
Monic == {<<0>>, <<0, 0>>, <<1>>, <<-1, 0>>, <<-2, 1>>, <<0, -1, 0>>, <<3, -1, 1>>, <<1, 0, 0, -1>>, <<0, 0, 1, 0>>}
S1 == {C("set", To(p, 8)) : p \in {<<>>, <<5>>, <<0, 2>>, <<-6, 11, -6, 1>>, <<0, 0, 3, 0, -4>>, <<1, 0, 0, 0, 0, 0, 0, 2>>, <<-4, 0, 3, 0, 0, 1>>, <<2, 3, 1, 0, 0, 0, -1>>}}
S2 == {C(op, To(<<0, -2, 6, -1, 0, 0, 0, -2>>, 8)) : op \in {"add", "sub"}}
  \cup {C("neg", <<>>), C("rev", <<>>), C("scale", <<0>>), C("scale", <<-3>>), C("over", <<-1>>)}
  \cup {C(op, <<c>> \o q) : op \in {"mul", "comp"}, c \in Caps, q \in Qs}
  \cup {C("div", <<c, d, k>> \o q) : c \in Caps, d \in Caps, k \in 1..2, q \in Monic}
  \cup {C("deriv", <<n>>) : n \in 0..9} \cup {C("area", <<l, h>>) : l \in {-2, 0, 1}, h \in {-1, 2}}
  \cup {C("shift", <<x>>) : x \in -2..2} \cup {C("stretch", <<x>>) : x \in -2..2} \cup {C("resize", <<c>>) : c \in Caps}
  \cup {C("fromuni", <<c>>) : c \in 1..4} \cup {C("eval", <<x>>) : x \in -3..3}
Free == {C("roots", <<c>> \o q) : c \in Caps, q \in {<<>>, <<0>>, <<2>>, <<1, 1>>, <<-1, 2, 3>>, <<1, NAN>>, <<INF>>, <<2, -2, 1, 0>>, <<1, 2, 3, 4, -5>>}}
  \cup {C("jet", <<c>> \o q) : c \in Caps, q \in {<<2>>, <<1, 2>>, <<0, 3, 0>>, <<1, 2, 3, 4, 5>>}}
  \cup {C("cheb", <<l, h, n>>) : l \in {-1, 0, 3}, h \in {1, 5}, n \in 1..8}
  \cup UNION {{C("points", SubSeq(x, 1, n) \o SubSeq(y, 1, n)) : x \in {<<0, 1, 2, 3, 4>>, <<5, -3, 2, 0, 7>>, <<2, 3, 2, 5, 1>>, <<-9, 4, 9, 30, 31>>, <<1, NAN, 3, 4, 5>>}, y \in {<<1, 4, -2, 0, 3>>, <<2, 2, 2, 2, 2>>, <<INF, 1, 1, 1, 1>>}} : n \in 1..5}
  \cup UNION {{C("through", SubSeq(x, 1, n) \o SubSeq(y, 1, n)) : x \in {<<0, 1, 2, 3, 4>>, <<5, -3, 2, 0, 6>>, <<2, 2, 3, 5, 1>>}, y \in {<<1, 4, -2, 0, 3>>, <<0, 0, 1, 2, 0>>}} : n \in 1..5}
  \cup UNION {{C("fit", <<n>> \o SubSeq(x, 1, k) \o SubSeq(y, 1, k)) : k \in 1..6, x \in {<<0, 1, 2, 3, 4, 5>>, <<5, -3, 2, 0, 6, 2>>, <<2, 2, 2, 2, 2, 2>>, <<1, 1, 3, 3, 1, 3>>, <<1, NAN, 3, 4, 5, 6>>}, y \in {<<1, 4, -2, 0, 3, 7>>, <<0, 0, 0, 0, 0, 0>>}} : n \in 1..4}
  \cup {C("herm3", <<v, d, e, f, h>>) : v \in {0, 3}, d \in {-2, 1}, e \in {-1, 3}, f \in {0, 4}, h \in {-1, 0, 1, 3, NAN, INF}}
  \cup {C("herm7", x \o y \o <<h>>) : x \in {<<0, 0, 0, 0>>, <<1, -2, 3, 1>>, <<2, NAN, 0, 0>>}, y \in {<<5, 0, 0, 0>>, <<-1, 2, 0, -3>>}, h \in {-1, 0, 1, 2, INF}}
  \cup {C("touni", <<c>> \o q) : c \in {1, 2, 3, 4}, q \in {<<>>, <<3, 0>>, <<2, 1, -2, 1>>, <<1, 3, 4, 0, 5, 3>>, <<1, -1>>}}
M1 == {C("mset", q) : q \in {<<>>, <<3, 2, 1>>, <<3, 2, 1, 2, 1, 1, -1, 0, 0>>, <<2, 1, 0, -2, 1, 0, 1, 0, 3>>, <<1, 0, 0, 0, 2, 2, 4, 0, 1, -4, 0, 1, 2, 3, 0, 1, 3, 0>>,
     <<1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0>>, <<NAN, 1, 1>>, <<1, 1, 1, INF, 0, 0>>}}
M2 == {C("mpush", <<c, 1, 2>>) : c \in {0, 2, NAN}} \cup {C("meval", <<x, y>>) : x \in {-2, 0, 3}, y \in {-1, 2}} \cup {C("mcollect", <<>>)}
  \cup {C(op, <<i>>) : op \in {"mpart", "manti"}, i \in 0..2} \cup {C("msub", <<i, x>>) : i \in 0..2, x \in {-2, 0, 1}}
  \cup {C(op, <<c>> \o q) : op \in {"madd", "mmul"}, c \in {2, 4, 6, 12}, q \in {<<>>, <<1, 1, 0>>, <<-3, 2, 1, 1, 0, 0>>, <<2, 1, 0, 1, 0, 1, -1, 0, 0>>}}
Top == {C("mset", <<2, -1, 0>>), C("mset", <<2, 0, 1, 3, 0, -1>>)}
TopNext == {C("manti", <<i>>) : i \in 0..2} \cup {C("mmul", <<4>> \o q) : q \in {<<1, 0, 0>>, <<1, 1, 0>>, <<1, 0, -1>>}} \cup {C("madd", <<c, 2, 0, -1>>) : c \in {1, 4}} \cup {C("mcollect", <<>>)}
Cmds == CASE Len(hist) = 0 -> S1 \cup Free \cup M1 \cup Top
  [] Len(hist) = 1 -> (IF hist[1].op = "set" THEN S2 ELSE IF C("mset", hist[1].a) \in Top THEN TopNext ELSE IF hist[1].op = "mset" THEN M2 ELSE IF hist[1].op \in {"roots", "jet"} THEN {C("eval", <<2>>)} ELSE {})
  [] Len(hist) = 2 -> (IF hist[2].op \in {"mul", "comp", "div", "add", "shift", "stretch"} /\ hist[2].r = "ok" THEN {C("eval", <<-1>>), C("mul", <<8, 1, 2>>), C("deriv", <<1>>)}
                       ELSE IF hist[1].op = "mset" /\ C("mset", hist[1].a) \notin Top THEN {C("meval", <<3, -2>>), C("mcollect", <<>>), C("mmul", <<6, 1, 1, 0>>)} ELSE {})
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
ASSUME Laws
=======================================================================================
