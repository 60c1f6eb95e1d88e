----------------------------------- MODULE OdoMC -----------------------------------
EXTENDS Odo, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Geo == {<<8, 32>>, <<3, 25>>, <<64, 7>>}
BadGeo == {<<0, 32>>, <<8, -1>>, <<NAN, 3>>, <<8, INF>>, <<NINF, 0>>, <<8, NAN>>, <<-8, -32>>}
Poses == {<<0, 0, 0>>, <<150, -220, 40>>, <<-700, 30, 314>>, <<12, 900, -157>>}
Arcs == {<<d, o>> : d \in {0, 1, 100, -250, 800}, o \in {0, 1, -30, 100, 157, -314, 500, 700}}
MCInit == Init /\ hist = <<>>
Cmds == CASE Len(hist) = 0 -> {C("new", a) : a \in Geo \cup BadGeo}
        [] Len(hist) = 1 -> {C("set", a) : a \in Poses} \cup
             IF out.r # "ok" THEN {} ELSE {C(op, <<x, y>>) : op \in {"body", "wheels", "travel"}, x \in {0, 5, -9}, y \in {0, 5, 30}}
               \cup {C("round", <<x, y, z, 7>>) : x \in {0, 5, -9}, y \in {3, 40}, z \in {-11, 0}} \cup {C("twist", <<x, y, 4, dt>>) : x \in {0, -3}, y \in {0, 8}, dt \in {0, 3, -5}}
        [] Len(hist) = 2 -> IF out.op # "set" THEN {} ELSE {C("arc", a) : a \in Arcs} \cup {C("split", a \o <<n>>) : a \in Arcs, n \in {1, 2, 7}} \cup {C("flow", a) : a \in {<<100, 0>>, <<250, 70>>, <<-300, -400>>}}
             \cup {C("roll", <<x, y>>) : x \in {0, 8, -25}, y \in {0, 8, 60}} \cup {C("uni", <<v, o, h>>) : v \in {0, 100, -250}, o \in {0, 30}, h \in {0, 157, -200}}
             \cup {C("pursue", <<x, y, l, 4>>) : x \in {0, 200, NAN}, y \in {0, -300, INF}, l \in {0, -3, 16, NAN, INF}} \cup {C("chase", a) : a \in {<<100, 0>>, <<250, 70>>, <<300, -300>>, <<80, 157>>}}
             \cup {C("back", <<100, 30, -20, 90, 400, 0>>)}
        [] OTHER -> {}
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == Len(hist') = 3 \/ (Len(hist') = 2 /\ out'.op # "set") => PrintT(ToJson(hist'))
===================================================================================
