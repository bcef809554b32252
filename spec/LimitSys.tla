------------------------------ MODULE LimitSys ------------------------------
(***************************************************************************)
(* Joint limits in inverse kinematics.  Values and limits of revolute      *)
(* joints are in 16ths of a turn, those of prismatic ones in eighths.      *)
(* A solver that makes no iterations is left with its starting values; the *)
(* specification says what enforcing and clamping must make of them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Choice, Json, TLC

CONSTANTS MaxJoints, MaxProblems, MaxRetries, Width

VARIABLES rs, phase, joints, shape, values, left
vars == << rs, phase, joints, shape, values, left >>

Inf == 1000000
Turn == 16
Within(lim, v) == lim[1] <= v /\ v <= lim[2]
Two(lim) == lim[1] > -Inf /\ lim[2] < Inf
\* v plus whole turns within two-sided limits: the smallest, and how many
CeilDiv(a, b) == -((-a) \div b)
First(lim, v) == v + Turn * CeilDiv(lim[1] - v, Turn)
Count(lim, v) == IF First(lim, v) > lim[2] THEN 0 ELSE 1 + (lim[2] - First(lim, v)) \div Turn
Clip(lim, v) == IF v < lim[1] THEN lim[1] ELSE IF v > lim[2] THEN lim[2] ELSE v
\* what an enforced value may be: << "is", x >>, << "turned", first, count >> (any of these), << "turns" >> (v plus any whole turns), << "within" >>
Allowed(j, v) ==
  IF j.kind = "P" THEN << "is", Clip(j.lim, v) >>
  ELSE IF Two(j.lim) THEN (IF Count(j.lim, v) > 0 THEN << "turned", First(j.lim, v), Count(j.lim, v) >> ELSE << "within" >>)
  ELSE IF Within(j.lim, v) THEN << "turns" >> ELSE << "within" >>

Lim(k) == LET c == HN(rs, k, 2 * Width + 1) - Width  h == HN(rs, k + 1, 10)  w == HN(rs, k + 2, Width) IN
          IF h = 0 THEN << -Inf, Inf >> ELSE IF h = 1 THEN << c, Inf >> ELSE IF h = 2 THEN << -Inf, c >> ELSE IF h = 3 THEN << c, c >>
          ELSE IF h = 4 THEN << c, c + Turn >> ELSE IF h = 5 THEN << -8, 8 >> ELSE << c, c + w >>
Gen(k) == [kind |-> IF Chance(75, rs, k) THEN "R" ELSE "P", lim |-> Lim(k + 1)]
Bounds == { -Inf } \cup -Width..Width \cup { Inf }
Init == /\ rs \in RsInit /\ phase = "ask" /\ values = <<>> /\ left = 1
        /\ joints \in Either({ << [kind |-> k, lim |-> << a, b >>] >> : k \in {"R", "P"}, a \in Bounds \ {Inf}, b \in Bounds \ {-Inf} },
                             [ i \in 1..(1 + HN(rs, 1, MaxJoints)) |-> Gen(10 * i) ])
        /\ \A i \in 1..Len(joints) : joints[i].lim[1] <= joints[i].lim[2]
        /\ shape = IF Exhaustive THEN [p |-> 1, r |-> 1, share |-> TRUE]
                   ELSE [p |-> 1 + HN(rs, 2, MaxProblems), r |-> 1 + HN(rs, 3, MaxRetries), share |-> HN(rs, 4, 2) = 0]
Rows == IF shape.share THEN shape.r ELSE shape.p * shape.r
Val(k) == LET h == HN(rs, k, 10) IN IF h < 2 THEN HN(rs, k + 1, 400) - 200 ELSE HN(rs, k + 1, 4 * Width + 1) - 2 * Width
Ask == /\ phase = "ask" /\ phase' = "done"
       /\ values' \in Either({ << << v >> >> : v \in (-3 * Width)..(3 * Width) },
                             [ i \in 1..Rows |-> [ j \in 1..Len(joints) |-> Val(1000 + 100 * i + 5 * j) ] ])
       /\ IF Exhaustive THEN TRUE
          ELSE PrintT("@@" \o ToJson([joints |-> joints, shape |-> shape, values |-> values',
                                      allowed |-> [ i \in 1..Rows |-> [ j \in 1..Len(joints) |-> Allowed(joints[j], values'[i][j]) ] ],
                                      clipped |-> [ i \in 1..Rows |-> [ j \in 1..Len(joints) |-> Clip(joints[j].lim, values'[i][j]) ] ]]))
       /\ rs' = RsNext(rs) /\ UNCHANGED << joints, shape, left >>
Spec == Init /\ [][Ask]_vars

TypeOK == phase \in { "ask", "done" }
Turned(v) == { v + Turn * k : k \in -40..40 }
Ways(a) == { a[2] + Turn * k : k \in 0..(a[3] - 1) }
AllowedOK == phase = "done" => \A i \in 1..Len(values), j \in 1..Len(joints) :
  LET v == values[i][j]  lim == joints[j].lim  a == Allowed(joints[j], v)
      in == { x \in Turned(v) : Within(lim, x) }
  IN /\ a[1] = "is" => Within(lim, a[2]) /\ (Within(lim, v) => a[2] = v)
     /\ a[1] = "turned" => Ways(a) = in /\ in # {}
     /\ (a[1] = "within" /\ Two(lim)) => in = {}
     /\ (joints[j].kind = "R" /\ Within(lim, v) /\ Two(lim)) => a[1] = "turned" /\ v \in Ways(a)
     /\ (joints[j].kind = "R" /\ Within(lim, v) /\ ~Two(lim)) => a[1] = "turns"
\* whichever turned value is closest to the middle of the limits is within them whenever any is
NearestOK == phase = "done" => \A i \in 1..Len(values), j \in 1..Len(joints) :
  LET v == values[i][j]  lim == joints[j].lim  off(x) == IF 2 * x >= lim[1] + lim[2] THEN 2 * x - lim[1] - lim[2] ELSE lim[1] + lim[2] - 2 * x IN
  (joints[j].kind = "R" /\ Two(lim)) =>
     \A x \in Turned(v) : off(x) <= Turn =>     \* no more than half a turn from the middle
        (Within(lim, x) <=> \E y \in Turned(v) : Within(lim, y)) \/ off(x) = Turn
Safety == TypeOK /\ AllowedOK /\ NearestOK
=============================================================================
