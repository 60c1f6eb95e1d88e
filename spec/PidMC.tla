------------------------------- MODULE PidMC -------------------------------
EXTENDS Pid, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
News == {C("new", <<kp, ki, kd, dt>>) : kp \in {2}, ki \in {-1, 2}, kd \in {2}, dt \in {1, 2}}
        \cup {C("new", <<NAN, 1, 1, 1>>), C("new", <<1, INF, 1, 1>>), C("new", <<1, 1, NINF, 1>>),
              C("new", <<1, 1, 1, NAN>>), C("new", <<1, 1, 1, 0>>), C("new", <<1, 1, 1, -1>>), C("new", <<1, 1, 1, INF>>)}
Early == {C("limits", <<-3, 3>>), C("limits", <<NINF, 2>>), C("smooth", <<2>>), C("limits", <<2, -2>>),
          C("limits", <<NAN, 2>>), C("smooth", <<5>>), C("smooth", <<-1>>), C("smooth", <<NAN>>)}
Run == {C("update", <<sp, m>>) : sp \in {0, 3}, m \in {-1, 2}}
       \cup {C("gains", <<4, -2, 2>>), C("gains", <<0, 2, 6>>), C("gains", <<1, NAN, 1>>),
             C("resume", <<2, 3, 1>>), C("resume", <<1, INF, 1>>), C("reset", <<>>)}
Cmds == IF Len(hist) = 0 THEN News
        ELSE IF ~st.live THEN {}
        ELSE IF Len(hist) <= 2 THEN Early \cup Run ELSE Run
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, Len(hist)>>
Emit == PrintT(ToJson(hist'))
=============================================================================
