--------------------------------- MODULE TreeMC ---------------------------------
EXTENDS Tree, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
J(kind, ax, an, q, t, par) == <<kind>> \o ax \o an \o q \o t \o <<0, 0, 0, 0, 0, 0, 0, par>>
X1 == <<1, 0, 0>> Zz == <<0, 0, 2>> I4 == <<1, 0, 0, 0>>
Good == {J(Rev, Zz, <<1, 0, 0>>, I4, <<0, 2, 0>>, p) : p \in {-1, 0, 1, 2}}
   \cup {J(Con, X1, Z3, <<1, 0, 1, 0>>, <<0, 0, 1>>, p) : p \in {-1, 1}} \cup {J(Pri, <<0, -1, 0>>, Z3, <<1, 1, 1, 1>>, X1, p) : p \in {0, 3}}
   \cup {J(Fix, X1, Z3, <<0, 1, 1, 0>>, <<1, -1, 2>>, 0)} \cup {J(Flo, X1, Z3, q, <<1, 0, 0>>, p) : q \in {I4, <<1, 0, 0, 1>>}, p \in {-1, 0}}
BaseJ == J(Rev, Zz, <<1, 0, 0>>, I4, <<0, 2, 0>>, -1)
At(b, i, x) == [b EXCEPT ![i] = x]
Bads == {At(BaseJ, i, x) : i \in (2..15) \cup (19..21), x \in {NAN, INF}} \cup {At(BaseJ, 4, 0)} \cup {At(At(BaseJ, 1, k), 4, 0) : k \in 0..4}
   \cup {At(At(At(BaseJ, 16, 1), 17, l[1]), 18, l[2]) : l \in {<<1, 2>>, <<2, 2>>, <<3, 2>>, <<NAN, 2>>, <<0, INF>>}}
   \cup {At(At(At(At(BaseJ, 1, 2), 16, 1), 17, -1), 18, 1)} \cup {At(BaseJ, 15, 3)}
Cfg(s, v) == [k \in 1..s.mc |-> IF Float(s) /\ k <= 7 THEN <<2, -1, 1, 0, 1, -1, 0>>[k] ELSE LET i == k - IF Float(s) THEN 6 ELSE 0 IN
   IF i <= Len(s.j) /\ s.j[i].kind \in {Rev, Con} THEN v[1 + (i % 3)] * 3 ELSE v[1 + (i % 3)]]
Cfgs(s) == {Cfg(s, v) : v \in {<<0, 1, 2>>, <<1, -1, 1>>, <<3, 2, -1>>}}
Looks(s) == {C("layout", <<>>)} \cup {C("joint", <<i>>) : i \in {0, Len(s.j) - 1, Len(s.j)} \cap 0..9}
   \cup {C("fk", c) : c \in Cfgs(s)} \cup {C("fk", [Cfg(s, <<0, 1, 2>>) EXCEPT ![i] = NAN]) : i \in 1..s.mc}
   \cup {C("jac", <<f, t>> \o Cfg(s, <<1, -1, 1>>)) : f \in {0, 1}, t \in 0..Len(s.j)}
   \cup (IF Float(s) THEN {C("fk", [Cfg(s, <<0, 1, 2>>) EXCEPT ![4] = 0, ![5] = 0, ![6] = 0, ![7] = 0])} ELSE {})
News == {C("new", <<3, 3>>), C("new", <<4, 10>>), C("new", <<3, 6>>), C("new", <<2, 4>>), C("joints", <<1, 2>>), C("joints", <<2, 1>>), C("joints", <<1, 0>>)}
All0 == IF Len(hist) = 0 THEN News ELSE IF st.k = "none" \/ out.op \notin {"new", "push", "fk"} THEN {}
  ELSE IF out.op = "fk" THEN (IF out.r = "ok" /\ Len(st.j) > 0 THEN {C("jacs", <<0, Len(st.j) - 1>>), C("push", At(BaseJ, 22, Len(st.j) - 1))} ELSE {})
  ELSE (IF Len(st.j) = 3 THEN {} ELSE {C("push", a) : a \in Good \cup (IF Len(hist) = 1 /\ st.mj = 4 THEN Bads ELSE {})})
        \cup (IF Len(st.j) = 3 THEN {C("push", BaseJ)} ELSE {}) \cup Looks(st)
\* which of several broken rules is named is the code's choice: those calls are left to the recorded sessions
Cmds == {c \in All0 : c.op = "push" => Cardinality(Broken(st, c.a)) <= 1}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, IF out.op \in {"push", "fk"} /\ out.r = "ok" THEN out.op ELSE out, Len(hist)>>
Emit == (out'.op # "push" \/ out'.r # "ok") => PrintT(ToJson(hist'))
=================================================================================
