------------------------------------- MODULE PcgMC --------------------------------------
(* Generators of every kind, and every order of the draws, on a few seeds and scripts.     *)
EXTENDS Pcg, Json
CONSTANTS Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
(* the reference implementation's own demonstration: seed 42 on stream 54                   *)
RECURSIVE First(_, _)
First(g, n) == IF n = 0 THEN <<>> ELSE <<Word(g)>> \o First(After(g), n - 1)
ASSUME First(Fresh(0, Bytes(<<0, 0, 0, 42>>), Bytes(<<0, 0, 0, 54>>)), 4) = <<<<41308, 695>>, <<31559, 62473>>, <<47645, 13104>>, <<33746, 62099>>>>
Seeds == {<<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<0, 0, 0, 42>>, <<32768, 0, 1, 0>>}
Streams == {<<0, 0, 0, 54>>, <<65535, 65535, 65535, 65535>>, <<32768, 0, 0, 0>>, <<0, 1, 0, 0>>}
(* words at the centre, at the rim, at both ends; a rejected pair first                     *)
Edge64 == {<<32768, 0, 0, 0>>, <<0, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>, <<49152, 0, 0, 0>>, <<40960, 0, 0, 0>>}
Edge32 == {<<32768, 0>>, <<0, 0>>, <<65535, 65535>>, <<49152, 0>>}
Makes == {C("new", <<1, t>> \o s) : t \in {0, 1}, s \in Seeds} \cup {C("stream", <<1, t>> \o s \o r) : t \in {0, 1}, s \in Seeds, r \in Streams}
    \cup {C("script", <<1, 0>> \o x \o y) : x \in Edge64, y \in Edge64} \cup {C("script", <<1, 1>> \o x \o y) : x \in Edge32, y \in Edge32}
Draws == {C(op, <<1>>) : op \in {"u32", "u64", "unit", "normal"}}
Cmds == CASE Len(hist) = 0 -> Makes
  [] Len(hist) <= 3 /\ (Len(hist) < 3 \/ hist[1].op # "stream") -> Draws
  [] Len(hist) = 3 -> {C("normal", <<1>>)}
  [] Len(hist) = 4 -> {C("clone", <<1, 2>>), C("normal", <<1>>)}
  [] OTHER -> {C("same", <<1, 2>>), C("normal", <<2>>)}
MCInit == Init /\ hist = <<>>
MCNext == /\ Len(hist) < Depth
          /\ \E c \in Cmds : /\ Do(c.op, c.a, NoW)
                             /\ hist' = Append(hist, out')
View == <<st, out, hist>>
Emit == PrintT(ToJson(hist'))
=======================================================================================
