------------------------------- MODULE Window -------------------------------
(* MovingAverage, RunningMedian (signal_processing/window.rs).               *)
(* The state is the whole history since construction or reset: the filters   *)
(* must depend on exactly its last WINDOW samples, the first one counting as *)
(* filling the window. Samples are in units of 1/420 of what is observed.    *)
EXTENDS Lattice
(* Averages also take NaN, infinities and a HUGE sample: they show while they *)
(* are in the window (HUGE off the lattice) and leave nothing behind.         *)
VARIABLES st, out
HUGE == 2000000003
None == [k |-> "none"]
New(k, n) ==
  IF n = 0 THEN Ret(None, "WindowTooShort", <<>>)
  ELSE IF k = "med" /\ n % 2 = 0 THEN Ret(None, "WindowEvenLength", <<>>)
  ELSE Ret([k |-> k, n |-> n, h |-> <<>>], "ok", <<0>>)
LastN(s) == IF s.h = <<>> THEN Rep(s.n, 0)
            ELSE LET q == Rep(s.n, s.h[1]) \o s.h IN SubSeq(q, Len(q) - s.n + 1, Len(q))
Below(q, x) == Cardinality({i \in DOMAIN q : q[i] < x})
Upto(q, x) == Cardinality({i \in DOMAIN q : q[i] <= x})
Median(q) == LET m == Len(q) \div 2 IN q[CHOOSE i \in DOMAIN q : Below(q, q[i]) <= m /\ Upto(q, q[i]) > m]
Wild == {NAN, INF, NINF, HUGE}
Avg(q) == LET S == {q[i] : i \in DOMAIN q} IN
  IF S \cap Wild = {} THEN ExDiv(420 * Sum(q), Len(q))
  ELSE IF NAN \in S \/ {INF, NINF} \subseteq S THEN NAN
  ELSE IF INF \in S THEN INF ELSE IF NINF \in S THEN NINF ELSE OFF
Val(s) == IF s.k = "avg" THEN Avg(LastN(s)) ELSE Median(LastN(s))
Feed(s, x) == LET t == [s EXCEPT !.h = Append(s.h, x)] IN Ret(t, "ok", <<Val(t), Val(t)>>)
Apply(s, op, a, w) ==
  CASE op = "avg" -> New("avg", a[1]) [] op = "med" -> New("med", a[1])
    [] s.k = "none" -> Ret(s, "none", <<>>)
    [] op = "feed" -> Feed(s, a[1])
    [] op = "reset" -> Ret([s EXCEPT !.h = <<>>], "ok", <<0>>)
    [] op = "value" -> Ret(s, "ok", <<Val(s)>>)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
------------------------------------------------------------------------------
Ran == out.op \in {"feed", "value"} /\ out.r = "ok"
(* a median is one of the samples of the window; an average lies between its extremes *)
Within == (Ran /\ st.h # <<>>) => LET q == LastN(st) S == {q[i] : i \in DOMAIN q} IN
   IF st.k = "med" THEN out.v[1] \in S ELSE IF S \cap Wild # {} THEN TRUE ELSE out.v[1] >= 420 * SetMin(S) /\ out.v[1] <= 420 * SetMax(S)
FirstFills == (Ran /\ Len(st.h) = 1 /\ st.h[1] \notin Wild) => out.v[1] = (IF st.k = "avg" THEN 420 ELSE 1) * st.h[1]
=============================================================================
