---------------------------------- MODULE Tree ----------------------------------
(* KinematicTree, Joint, KinematicTreeState, KinematicJacobian (kinematics/).     *)
(* Turning readings in twelfths of a turn, sliding readings in metres; joint      *)
(* rates and Jacobian columns are taken per length of the axis as given, so that  *)
(* every number is whole.                                                         *)
EXTENDS Rot
VARIABLES st, out
None == [k |-> "none"]
Rev == 0 Pri == 1 Con == 2 Fix == 3 Flo == 4
New(a) == Ret([k |-> "tree", mj |-> a[1], mc |-> a[2], j |-> <<>>, saved |-> <<-1, <<>>>>], "ok", <<a[1]>>)
Float(s) == Len(s.j) > 0 /\ s.j[1].kind = Flo
CLen(s) == Len(s.j) + IF Float(s) THEN 6 ELSE 0
VLen(s) == Len(s.j) + IF Float(s) THEN 5 ELSE 0
COff(s, i) == i + IF Float(s) /\ i > 0 THEN 6 ELSE 0            \* joints counted from 0
VOff(s, i) == i + IF Float(s) /\ i > 0 THEN 5 ELSE 0
Width(s, i) == IF s.j[i + 1].kind = Flo THEN 7 ELSE 1
VWidth(s, i) == IF s.j[i + 1].kind = Flo THEN 6 ELSE 1
(* a = kind, axis 3, anchor 3, origin quaternion 4, origin translation 3, zero, has limits, lower, upper, *)
(*     armature, damping, friction, parent (-1 world)                            *)
Broken(s, a) ==
  LET kind == a[1] moves == kind \in {Rev, Pri, Con} IN
     (IF Len(s.j) = s.mj THEN {"CapacityExceeded"} ELSE {})
  \cup (IF a[22] >= Len(s.j) THEN {"ParentOutOfOrder"} ELSE {})
  \cup (IF kind = Flo /\ (Len(s.j) # 0 \/ a[22] # -1) THEN {"FloatingJointNotAtRoot"} ELSE {})
  \cup (IF (moves /\ ~AllFinite(SubSeq(a, 2, 4))) \/ ~AllFinite(SubSeq(a, 5, 15)) \/ ~AllFinite(SubSeq(a, 19, 21)) \/ (a[16] = 1 /\ ~AllFinite(SubSeq(a, 17, 18))) THEN {"NonFinite"} ELSE {})
  \cup (IF a[16] = 1 /\ Finite(a[17]) /\ Finite(a[18]) /\ a[17] > a[18] THEN {"LimitsReversed"} ELSE {})
  \cup (IF a[16] = 1 /\ kind = Con THEN {"ContinuousJointHasLimits"} ELSE {})
  \cup (IF moves /\ (<<a[2], a[3], a[4]>> = Z3 \/ ~AllFinite(SubSeq(a, 2, 4))) THEN {"AxisHasNoDirection"} ELSE {})
  \cup (IF (IF kind = Flo THEN 7 ELSE 1) + CLen(s) > s.mc THEN {"ConfigurationCapacityExceeded"} ELSE {})
Push(s, a, w) ==
  LET bad == Broken(s, a) IN
  IF bad # {} THEN Ret(s, IF w.r \in bad THEN w.r ELSE IF Cardinality(bad) = 1 THEN CHOOSE x \in bad : TRUE ELSE "several rules broken", <<>>)
  ELSE Ret([s EXCEPT !.j = Append(@, [kind |-> a[1], ax |-> IF a[1] \in {Fix, Flo} THEN Z3 ELSE SubSeq(a, 2, 4), an |-> SubSeq(a, 5, 7),
                 o |-> <<QMat(SubSeq(a, 8, 11)), SubSeq(a, 12, 14)>>, z |-> a[15], rest |-> SubSeq(a, 16, 22)])], "ok", <<Len(s.j) + 1>>)
Layout(s) == Ret(s, "ok", <<Len(s.j), B(Len(s.j) = 0), CLen(s), VLen(s), B(Float(s))>>
   \o Flat([i \in 1..Len(s.j) |-> <<COff(s, i - 1), VOff(s, i - 1)>>]) \o <<-1, -1>>)
JointAt(s, i) == IF i >= Len(s.j) THEN Ret(s, "none", <<>>) ELSE LET x == s.j[i + 1] IN
   Ret(s, "ok", <<x.kind>> \o x.ax \o x.an \o x.o[1] \o x.o[2] \o <<x.z>> \o (IF x.rest[1] = 1 THEN x.rest ELSE <<0, 0, 0>> \o SubSeq(x.rest, 4, 7)))
(* ---- forward kinematics ------------------------------------------------------ *)
AllRead(s, c) == \A i \in 0..Len(s.j) - 1 : s.j[i + 1].kind = Fix \/ \A k \in 1..Width(s, i) : Finite(c[COff(s, i) + k])
Quat(c) == SubSeq(c, 4, 7)
Motion(s, c, i) ==
  LET x == s.j[i + 1] d == c[COff(s, i) + 1] - x.z IN
  CASE x.kind \in {Rev, Con} -> LET r == Turn(x.ax, d) IN <<r, VS(x.an, MV(r, x.an))>>
    [] x.kind = Pri -> <<Id3, VD(VX(x.ax, d), ISqrt(Dot(x.ax, x.ax), 0))>>
    [] x.kind = Fix -> IdM
    [] x.kind = Flo -> <<QMat(Quat(c)), SubSeq(c, 1, 3)>>
RECURSIVE Upto(_, _, _)
Parent(s, p, i) == IF s.j[i + 1].rest[7] < 0 THEN IdM ELSE p[s.j[i + 1].rest[7] + 1]
Upto(s, c, n) == IF n = 0 THEN <<>> ELSE LET p == Upto(s, c, n - 1) IN
   Append(p, Mul(Parent(s, p, n - 1), Mul(s.j[n].o, Motion(s, c, n - 1))))
Poses(s, c) == TLCEval(Upto(s, c, Len(s.j)))
FkBad(s, c) == IF ~AllRead(s, c) THEN "NonFinite" ELSE IF Float(s) /\ Quat(c) = <<0, 0, 0, 0>> THEN "OrientationHasNoDirection" ELSE ""
Flatten(p) == Flat([i \in DOMAIN p |-> p[i][1] \o p[i][2]])
Fk(s, c) == LET e == FkBad(s, c) IN IF e # "" THEN Ret(s, e, <<>>)
   ELSE LET p == Poses(s, c) IN Ret([s EXCEPT !.saved = <<Len(s.j), p>>], "ok", Flatten(p))
(* ---- Jacobian ------------------------------------------------------------------ *)
RECURSIVE OnPath(_, _)
OnPath(s, i) == {i} \cup IF s.j[i + 1].rest[7] < 0 THEN {} ELSE OnPath(s, s.j[i + 1].rest[7])
Basis(k) == [i \in 1..3 |-> B(i = k)]
(* columns of joint i for tool position x: (linear, angular) pairs                   *)
Columns(s, p, i, x) ==
  LET j == s.j[i + 1] P == p[i + 1] ax == MV(P[1], j.ax) IN
  CASE j.kind \in {Rev, Con} -> <<<<Cross(ax, VS(x, Act(P, j.an))), ax>>>>
    [] j.kind = Pri -> <<<<ax, Z3>>>>
    [] j.kind = Fix -> <<<<Z3, Z3>>>>
    [] j.kind = Flo -> [k \in 1..6 |-> IF k <= 3 THEN <<MV(j.o[1], Basis(k)), Z3>>
                                       ELSE LET d == MV(P[1], Basis(k - 3)) IN <<Cross(d, VS(x, P[2])), d>>]
JacOf(s, p, frame, tool) ==
  LET T == p[tool + 1] path == OnPath(s, tool)
      Seen(v) == IF frame = 1 THEN MV(Tr(T[1]), v) ELSE v
      Of(i) == IF i \in path THEN Columns(s, p, i, T[2]) ELSE [k \in 1..VWidth(s, i) |-> <<Z3, Z3>>]
  IN TLCEval(Flat([i \in 1..Len(s.j) |-> [k \in 1..VWidth(s, i - 1) |-> LET q == Of(i - 1)[k] IN Seen(q[1]) \o Seen(q[2])]]))
JacFrom(s, p, frame, tool) == Ret(s, "ok", <<VLen(s), frame>> \o Flat(JacOf(s, p, frame, tool)))
Jac(s, a) ==     \* frame (0 world, 1 body), tool, configuration
  LET c == SubSeq(a, 3, Len(a)) e == FkBad(s, c) IN
  IF e # "" THEN Ret(s, e, <<>>) ELSE IF a[2] >= Len(s.j) THEN Ret(s, "ToolIndexOutOfRange", <<>>) ELSE JacFrom(s, Poses(s, c), a[1], a[2])
(* from poses solved earlier                                                           *)
Jacs(s, a) == IF s.saved[1] < 0 THEN Ret(s, "unsaved", <<>>)
   ELSE IF a[2] >= Len(s.j) THEN Ret(s, "ToolIndexOutOfRange", <<>>) ELSE IF s.saved[1] # Len(s.j) THEN Ret(s, "StateShapeMismatch", <<>>)
   ELSE JacFrom(s, s.saved[2], a[1], a[2])
Twist(s, a) ==   \* frame, tool, rates
  IF s.saved[1] < 0 \/ s.saved[1] # Len(s.j) \/ a[2] >= Len(s.j) THEN Ret(s, "unsaved", <<>>)
  ELSE LET J == JacOf(s, s.saved[2], a[1], a[2]) IN Ret(s, "ok", [r \in 1..6 |-> Sum([k \in 1..Len(J) |-> J[k][r] * a[2 + k]])])
(* damped inverse X and projector P of the Jacobian at the saved poses: X in 1/K       *)
K == 20000
Pinv(s, a, w) ==  \* frame, tool, damping, weights (quarters of their inverse)
  IF s.saved[1] < 0 \/ s.saved[1] # Len(s.j) \/ a[2] >= Len(s.j) THEN Ret(s, "unsaved", <<>>)
  ELSE IF \E k \in 1..VLen(s) : a[3 + k] <= 0 THEN Ret(s, "NonPositiveWeight", <<>>)
  ELSE LET J == JacOf(s, s.saved[2], a[1], a[2]) n == Len(J) q(k) == a[3 + k]
           G == TLCEval([r \in 1..6 |-> [c \in 1..6 |-> Sum([k \in 1..n |-> J[k][r] * q(k) * J[k][c]]) + 4 * a[3] * a[3] * B(r = c)]])
           X(k, r) == w.v[6 * (k - 1) + r]
           Pj(k, l) == w.v[6 * n + n * (k - 1) + l]
           wt(c) == Sum([r \in 1..6 |-> Abs(G[r][c])])
       IN IF /\ w.r = "ok" /\ Len(w.v) = 6 * n + n * n
             /\ \A i \in DOMAIN w.v : Abs(w.v[i]) < 10 * K
             /\ \A k \in 1..n, c \in 1..6 : Abs(Sum([r \in 1..6 |-> X(k, r) * G[r][c]]) - J[k][c] * q(k) * K) <= wt(c)
             /\ \A k, l \in 1..n : Abs(Pj(k, l) - K * B(k = l) + Sum([r \in 1..6 |-> X(k, r) * J[l][r]])) <= Sum([r \in 1..6 |-> Abs(J[l][r])]) + 2
          THEN Ret(s, "ok", w.v) ELSE Ret(s, "not the damped inverse", <<>>)
(* ---- distance between configurations, squared: angle part in (1/12 turn)^2, length part -- *)
Wrap12(d) == LET m == d % 12 IN IF m > 6 THEN m - 12 ELSE m
AnglePart(s, c, d) == Sum([i \in 1..Len(s.j) |-> LET o == COff(s, i - 1) + 1 IN
   CASE s.j[i].kind = Rev -> (c[o] - d[o]) * (c[o] - d[o]) [] s.j[i].kind = Con -> Wrap12(c[o] - d[o]) * Wrap12(c[o] - d[o])
     [] s.j[i].kind = Flo -> LET g == Angle12(MM(Tr(QMat(Quat(c))), QMat(Quat(d)))) IN g * g [] OTHER -> 0])
LengthPart(s, c, d) == Sum([i \in 1..Len(s.j) |-> LET o == COff(s, i - 1) + 1 IN
   CASE s.j[i].kind = Pri -> (c[o] - d[o]) * (c[o] - d[o])
     [] s.j[i].kind = Flo -> LET g == VS(SubSeq(c, 1, 3), SubSeq(d, 1, 3)) IN Dot(g, g) [] OTHER -> 0])
Dist(s, a, w) ==
  LET c == SubSeq(a, 1, s.mc) d == SubSeq(a, s.mc + 1, 2 * s.mc)
      sq == 27416 * AnglePart(s, c, d) + 100000 * LengthPart(s, c, d) IN       \* in 1e-5
  IF /\ w.r = "ok" /\ Len(w.v) = 1 /\ w.v[1] \in 0..400000
     /\ IF w.v[1] <= 46000 THEN Abs((w.v[1] * w.v[1]) \div 10 - sq) <= w.v[1] \div 4 + sq \div 10000 + 2     \* distance in 1e-3
        ELSE LET u == w.v[1] \div 10 IN Abs(u * u - sq \div 10) <= 3 * u + sq \div 100000
  THEN Ret(s, "ok", w.v) ELSE Ret(s, "another distance", <<sq>>)
Apply(s, op, a, w) ==
  CASE op = "new" -> New(a)
    [] op = "joints" -> Ret(s, "JointCountMismatch", <<>>)      \* lists of different lengths
    [] s.k = "none" -> Ret(s, "nothing", <<>>)
    [] op = "push" -> Push(s, a, w) [] op = "layout" -> Layout(s) [] op = "joint" -> JointAt(s, a[1])
    [] op = "fk" -> Fk(s, a) [] op = "jac" -> Jac(s, a) [] op = "jacs" -> Jacs(s, a)
    [] op = "twist" -> Twist(s, a) [] op = "pinv" -> Pinv(s, a, w) [] op = "dist" -> Dist(s, a, w)
Init == st = None /\ out = [op |-> "init", a |-> <<>>, r |-> "ok", v |-> <<>>]
Do(op, a, w) == \E x \in {Apply(st, op, a, w)} :
   st' = x.st /\ out' = [op |-> op, a |-> a, r |-> x.r, v |-> x.v]
---------------------------------------------------------------------------------
Built == st.k = "tree"
ParentsFirst == Built => \A i \in 1..Len(st.j) : st.j[i].rest[7] < i - 1
FloatOnlyAtRoot == Built => \A i \in 2..Len(st.j) : st.j[i].kind # Flo
WithinCapacity == Built => Len(st.j) <= st.mj /\ CLen(st) <= st.mc
(* the slots of the joints tile the configuration and the velocity without overlap  *)
SlotsTile == Built => LET n == Len(st.j) IN
   /\ UNION {{COff(st, i) + k : k \in 0..Width(st, i) - 1} : i \in 0..n - 1} = 0..CLen(st) - 1
   /\ UNION {{VOff(st, i) + k : k \in 0..VWidth(st, i) - 1} : i \in 0..n - 1} = 0..VLen(st) - 1
   /\ \A i, k \in 0..n - 1 : i < k => COff(st, i) + Width(st, i) <= COff(st, k) /\ VOff(st, i) + VWidth(st, i) <= VOff(st, k)
RigidPoses == (Built /\ st.saved[1] >= 0) => \A i \in DOMAIN st.saved[2] : Proper(st.saved[2][i][1])
(* a joint does not move its own axis; every point of it stays                        *)
OwnAxisStays == (out.op = "fk" /\ out.r = "ok") => \A i \in 1..Len(st.j) :
   LET P == st.saved[2][i] x == st.j[i] rest == Mul(IF x.rest[7] < 0 THEN IdM ELSE st.saved[2][x.rest[7] + 1], x.o) IN
   x.kind \in {Rev, Con} => MV(P[1], x.ax) = MV(rest[1], x.ax) /\ Act(P, x.an) = Act(rest, x.an)
(* a rejected append changes nothing                                                  *)
RejectedUnchanged == [][(out'.op = "push" /\ out'.r # "ok") => st' = st]_<<st, out>>
=================================================================================
