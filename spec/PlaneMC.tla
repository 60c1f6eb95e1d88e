---------------------------------- MODULE PlaneMC ----------------------------------
EXTENDS Plane, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Rs == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<-12, -5, 13>>, <<7, 24, 25>>}
L(i, r, x, y) == C("load", <<i, r[3], r[1], -r[2], r[2], r[1], x, y, 0, 0, r[3]>>)
Bads == UNION {{[L(1, r, 2, 3).a EXCEPT ![k] = z] : k \in {3, 4, 6, 9, 10, 11}, z \in {NAN, INF, 7}} : r \in {<<3, 4, 5>>, <<0, 1, 1>>}}
Loose == {C("load", a) : a \in Bads} \cup {C("mat", SubSeq(a, 1, 6)) : a \in Bads} \cup {C("mat", SubSeq(L(1, r, 0, 0).a, 1, 6)) : r \in Rs} \cup {C("mat", <<1, n, 3, 4, 4, -3>>) : n \in {5, 6}} \cup {C("mat", <<1, 5, 6, -8, 8, 6>>)}
  \cup {C("exp", <<x, y, o>>) : x \in {0, 100, -300}, y \in {0, 200}, o \in {0, 1, -3, 40, 157, -314, 700}}
  \cup {C("jac", <<k, 100, -50, o>>) : k \in 0..10, o \in {0, 1, 157, -300, 500}} \cup {C("hat", <<1, -2, 3>>)}
MCInit == Init /\ hist = <<>>
Cmds == CASE Len(hist) = 0 -> Loose \cup {L(1, r, 1, -2) : r \in Rs}
  [] Len(hist) = 1 -> IF out.op = "load" /\ out.a \notin Bads THEN {L(2, r, -3, 5) : r \in Rs} ELSE {}
  [] Len(hist) = 2 -> {C("mul", <<3, 1, 2>>), C("inv", <<3, 2>>), C("interp", <<1, 2, 50>>), C("interp", <<1, 2, 20>>)}
  [] Len(hist) = 3 -> IF out.op \in {"mul", "inv"} THEN {C("remake", <<3>>), C("act", <<3, 5, -7>>), C("mul", <<1, 3, 1>>), C("adj", <<3, 1, -2, 3>>), C("conj", <<3, 100, -200, 30>>)} ELSE {}
  [] OTHER -> {}
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == (Len(hist') = 4 \/ (Len(hist') = 3 /\ out'.op = "interp") \/ (Len(hist') = 1 /\ (out'.op # "load" \/ out'.a \in Bads))) => PrintT(ToJson(hist'))
===================================================================================
