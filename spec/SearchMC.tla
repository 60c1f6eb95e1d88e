------------------------------------ MODULE SearchMC ------------------------------------
(* Every function of three pieces, broken or whole, under every setting of the searches.   *)
EXTENDS Search, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
Sets == {C("set", <<j, f, b, d, 0, 0>>) : j \in {-1, 2, 6}, f \in {0, U \div 4}, b \in {0, 1, 3, 30, 400}, d \in {0, 1}}
Kinds == {<<0, U>>, <<0, -U>>, <<1, 0>>, <<-1, U>>, <<2, -2 * U>>, <<0, NAN>>}
Funs == {<<-U>> \o k \o <<U>> \o l \o <<INF>> \o m : k \in Kinds, l \in Kinds, m \in Kinds}
Mild == {f \in Funs : Cardinality({i \in {3, 6, 9} : f[i] = NAN}) <= 1}
Brackets == {<<-2, 3>>, <<2, -2>>, <<0, 4>>, <<-2, 0>>, <<1, 1>>}
Lines(s) == {C(op, <<x[1] * U, x[2] * U>> \o f) : op \in {"bisect", "brent"}, x \in (IF s[3] = 30 THEN Brackets ELSE {<<-2, 3>>}), f \in Mild}
Newtons == {C("newton", <<x * U>> \o f) : x \in {-2, 0, 3}, f \in Mild}
Mats == {<<1, 0, 0, 1>>, <<0, 2, 1, 0>>, <<1, 1, 1, 1>>, <<2, 1, 1, 1>>, <<-4, 0, 1, 2>>}
Centres == {<<0, 0>>, <<512, -256>>, <<-768, 256>>}
Systems == {C("system", <<256, 512, 0>> \o m \o c \o <<256>> \o n \o d \o <<INF>> \o p \o e) : m \in {<<1, 0, 0, 1>>, <<2, 1, 1, 1>>}, c \in Centres, n \in {<<1, 0, 0, 1>>, <<1, 1, 1, 1>>}, d \in Centres, p \in Mats, e \in Centres \cup {<<NAN, 0>>}}
Cmds == CASE Len(hist) = 0 -> Sets
  [] Len(hist) = 1 -> LET s == hist[1].a IN (IF s[4] = 0 THEN Lines(s) ELSE {}) \cup (IF s[3] > 0 /\ s[3] < 400 /\ s[1] # 6 THEN Newtons ELSE {}) \cup (IF s[3] = 30 THEN Systems ELSE {})
  [] OTHER -> {}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
