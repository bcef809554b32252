------------------------------ MODULE RotMathSys ------------------------------
(***************************************************************************)
(* Arcs between orientations.  An arc starts at the orientation of an      *)
(* integer quaternion q and is divided into n equal steps by an integer    *)
(* quaternion s (its step), so that the orientation at k/n of the arc is   *)
(* q s^k, exactly.  s^n has a positive real part, so the arc is the short  *)
(* one.  Distances, exponentials and logarithms are stated on the relative *)
(* quaternion s^n = (a, v): angle 2 atan2(|v|, a) about v.                 *)
(***************************************************************************)
EXTENDS Geom, Choice, FiniteSets, Json

CONSTANTS NumOps, MaxBatch

VARIABLES rs, log, left
vars == << rs, log, left >>

RECURSIVE QPow(_, _)
QPow(q, k) == IF k = 0 THEN <<1, 0, 0, 0>> ELSE QMul(q, QPow(q, k - 1))
ReduceQ(q) == LET g == GcdSeq(Abs(q[1]), q, 2) IN IF g <= 1 THEN q ELSE << q[1] \div g, q[2] \div g, q[3] \div g, q[4] \div g >>
VSq(q) == q[2] * q[2] + q[3] * q[3] + q[4] * q[4]

Starts == IF Exhaustive THEN << <<1,0,0,0>>, <<1,-1,0,2>>, <<0,0,1,0>> >>
          ELSE << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,0,1>>, <<1,1,0,0>>, <<1,1,1,1>>, <<-1,0,1,0>>, <<2,1,0,-1>>, <<0,1,-1,0>>, <<1,-1,0,2>>, <<-2,1,1,0>> >>
\* steps with the largest number of them that stays on the short arc (and within exact arithmetic)
Steps == IF Exhaustive THEN << [s |-> <<1,0,0,0>>, n |-> 3], [s |-> <<2,1,0,0>>, n |-> 3], [s |-> <<5,1,-1,0>>, n |-> 4], [s |-> <<1,0,1,0>>, n |-> 1], [s |-> <<3,1,1,1>>, n |-> 2] >>
         ELSE << [s |-> <<1,0,0,0>>, n |-> 4], [s |-> <<1,0,1,0>>, n |-> 1], [s |-> <<2,1,0,0>>, n |-> 3], [s |-> <<2,0,-1,1>>, n |-> 2], [s |-> <<3,0,0,1>>, n |-> 4],
                 [s |-> <<3,1,1,1>>, n |-> 2], [s |-> <<5,1,-1,0>>, n |-> 4], [s |-> <<4,1,-2,1>>, n |-> 2], [s |-> <<1,2,-1,3>>, n |-> 1], [s |-> <<1,9,0,-4>>, n |-> 1],
                 [s |-> <<2,-7,5,1>>, n |-> 1], [s |-> <<40,1,0,0>>, n |-> 2], [s |-> <<30,0,1,-1>>, n |-> 2], [s |-> <<25,-1,0,1>>, n |-> 2],
                 [s |-> <<800,1,0,0>>, n |-> 1], [s |-> <<700,0,-1,1>>, n |-> 1], [s |-> <<150,1,1,0>>, n |-> 1], [s |-> <<90,0,0,-1>>, n |-> 1], [s |-> <<60,1,0,1>>, n |-> 1],
                 [s |-> <<7,2,1,-1>>, n |-> 3], [s |-> <<10,-1,0,3>>, n |-> 3] >>
Arc(a) == [q |-> a.q, s |-> a.s, n |-> a.n, q2 |-> ReduceQ(QMul(a.q, QPow(a.s, a.n))), rel |-> ReduceQ(QPow(a.s, a.n)), s1 |-> a.s1, s2 |-> a.s2]
GArc(k) == LET st == HPick(Steps, rs, k)
           IN Arc([q |-> HPick(Starts, rs, k + 1), s |-> st.s, n |-> IF Chance(60, rs, k + 2) THEN st.n ELSE 1 + HN(rs, k + 2, st.n),
                   s1 |-> HN(rs, k + 3, 2), s2 |-> HN(rs, k + 4, 2)])
Arcs == Either({ << Arc([q |-> q, s |-> st.s, n |-> m, s1 |-> sg, s2 |-> 1 - sg]) >> : q \in Range(Starts), st \in { x \in Range(Steps) : TRUE }, m \in 1..1, sg \in 0..1 }
               \cup { << Arc([q |-> q, s |-> st.s, n |-> st.n, s1 |-> 0, s2 |-> 1]) >> : q \in Range(Starts), st \in Range(Steps) },
               [ i \in 1..(1 + HN(rs, 1, MaxBatch)) |-> GArc(10 * i) ])
Emit(e) == log' = Append(log, e)
Meta == [f |-> HN(rs, 2, 2), shape |-> HN(rs, 3, 4), way |-> HN(rs, 4, 12)]

\* every orientation of the batch at its own fraction of its own arc (or all at the same one)
Slerp == \E as \in Arcs : \E ks \in Either({ << k >> : k \in 0..as[1].n }, [ i \in 1..Len(as) |-> HN(rs, 5 + i, as[i].n + 1) ]) :
           Emit([op |-> "slerp", arcs |-> as, ks |-> ks, meta |-> Meta])
Distance == \E as \in Arcs : Emit([op |-> "distance", arcs |-> as, meta |-> Meta])
So3 == \E as \in Arcs : Emit([op |-> "so3", arcs |-> as, meta |-> Meta])
HatOf == \E v \in Either({ <<1,-2,3>>, <<0,0,4>> }, << HN(rs, 5, 21) - 10, HN(rs, 6, 21) - 10, HN(rs, 7, 21) - 10 >>),
            w \in Either({ <<2,1,-1>> }, << HN(rs, 8, 21) - 10, HN(rs, 9, 21) - 10, HN(rs, 10, 21) - 10 >>) :
           Emit([op |-> "hat", v |-> v, w |-> w, hat |-> Hat(v), cross |-> Cross(v, w), meta |-> Meta])
\* arccosine continued linearly outside of [lo, hi] (in hundredths)
Acos == \E lo \in Either({ -90 }, -1 - HN(rs, 5, 99)), hi \in Either({ 90 }, 1 + HN(rs, 6, 99)) :
        \E xs \in Either({ << x >> : x \in { -120, -90, -10, 90, 130 } }, [ i \in 1..(1 + HN(rs, 7, 6)) |-> HN(rs, 10 + i, 301) - 150 ]) :
          Emit([op |-> "acos", lo |-> lo, hi |-> hi, xs |-> xs, at |-> [ i \in 1..Len(xs) |-> IF xs[i] >= hi THEN "above" ELSE IF xs[i] <= lo THEN "below" ELSE "inside" ], meta |-> Meta])
Bad == Emit([op |-> "bad", kind |-> HN(rs, 5, 10), meta |-> Meta])

Step == /\ left > 0
        /\ IF Exhaustive THEN Slerp \/ Distance \/ So3 \/ HatOf \/ Acos
           ELSE LET h == HN(rs, 8, 20) IN IF h < 8 THEN Slerp ELSE IF h < 12 THEN Distance ELSE IF h < 16 THEN So3 ELSE IF h < 18 THEN HatOf ELSE IF h < 19 THEN Acos ELSE Bad
        /\ left' = left - 1 /\ rs' = RsNext(rs)
Init == rs \in RsInit /\ log = <<>> /\ left = NumOps
Finish == /\ left = 0 /\ left' = -1
          /\ IF Exhaustive THEN TRUE ELSE PrintT("@@" \o ToJson(log))
          /\ UNCHANGED << rs, log >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == left \in -1..NumOps
New == log # <<>> /\ left >= 0
Ev == log[Len(log)]
Same(p, q) == ReduceQ(p) = ReduceQ(q) \/ ReduceQ(p) = ReduceQ(QNeg(q))
ArcOK(a) ==
  /\ a.rel[1] > 0                                              \* the short way round
  /\ \A k \in 1..a.n : QPow(a.s, k)[1] > 0
  /\ Same(QMul(a.q, a.rel), a.q2)
  /\ \A k \in 0..a.n :                                         \* the same arc walked backwards
       Same(QMul(a.q2, QPow(QConj(a.s), a.n - k)), QMul(a.q, QPow(a.s, k)))
  \* |real part| of the relative quaternion does not depend on order or signs
  /\ QMul(QConj(a.q), a.q2)[1] = QMul(QConj(a.q2), a.q)[1]
  /\ QMul(QConj(a.q), QNeg(a.q2))[1] = -QMul(QConj(a.q), a.q2)[1]
Rodrigues(q) ==
  LET v == << q[2], q[3], q[4] >>  n == QNormSq(q)  h == Hat(v)  h2 == MMul(h, h)
  IN /\ QMat(q) = MAdd(MScale(n, MId), MAdd(MScale(2 * q[1], h), MScale(2, h2)))
     /\ MVec(QMat(q), v) = VScale(n, v)
     /\ QMat(q)[1] + QMat(q)[5] + QMat(q)[9] = 4 * q[1] * q[1] - n
     /\ MAdd(QMat(q), MScale(-1, MT(QMat(q)))) = MScale(4 * q[1], h)
Small(q) == QNormSq(q) < 2000
Safety ==
  /\ TypeOK
  /\ (New /\ Ev.op \in {"slerp", "distance", "so3"}) => \A i \in 1..Len(Ev.arcs) :
       /\ Small(Ev.arcs[i].rel) => ArcOK(Ev.arcs[i])
       /\ Rodrigues(Ev.arcs[i].rel)
  /\ (New /\ Ev.op = "hat") => MVec(Ev.hat, Ev.w) = Ev.cross /\ MT(Ev.hat) = MScale(-1, Ev.hat)
=============================================================================
