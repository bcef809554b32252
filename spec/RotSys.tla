------------------------------- MODULE RotSys --------------------------------
(***************************************************************************)
(* A batch of rotations travels through representations.  Converting never *)
(* changes the rotations; multiplying, inverting and applying them do what *)
(* the group of rotations says, in whatever representation they are.       *)
(* Each rotation also has a velocity: it is a curve, of which conversions  *)
(* and products transport the derivative (hat(w) R for an angular velocity *)
(* w), so that differentiating through the conversions is specified too.   *)
(***************************************************************************)
EXTENDS Geom, Choice, FiniteSets, Json

CONSTANTS NumOps, MaxBatch

VARIABLES rs, cur, vel, rep, log, left
vars == << rs, cur, vel, rep, log, left >>

---------------------------------------------------------------------------
ReduceQ(q) == LET g == GcdSeq(Abs(q[1]), q, 2) IN IF g <= 1 THEN q ELSE << q[1] \div g, q[2] \div g, q[3] \div g, q[4] \div g >>
Limit == 3000000
CanMul(a, b) == QNormSq(a) <= Limit \div QNormSq(b)

Quats == IF Exhaustive THEN << <<1,0,0,0>>, <<1,1,0,0>>, <<0,0,1,0>>, <<1,1,1,1>>, <<-1,0,2,0>>, <<2,1,0,-1>> >>
         ELSE << <<1,0,0,0>>, <<1,0,0,0>>, <<-1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>, <<0,1,1,0>>, <<0,1,-2,2>>, <<0,-1,0,3>>,
                 <<1,1,0,0>>, <<1,0,-1,0>>, <<1,0,0,1>>, <<1,1,1,1>>, <<1,-1,1,1>>, <<-1,1,1,-1>>, <<2,1,0,0>>, <<2,0,-1,0>>, <<3,0,0,1>>,
                 <<1,1,1,0>>, <<2,1,1,0>>, <<2,-1,0,2>>, <<1,2,2,0>>, <<3,1,-1,1>>, <<-2,1,3,1>>, <<-1,0,2,-2>>, <<4,1,-2,3>>, <<1,-5,2,1>>,
                 <<500,1,0,0>>, <<700,1,-1,2>>, <<1,0,600,0>>, <<1,300,-400,0>>, <<-1,0,0,800>>, <<40,1,1,0>>, <<1,30,0,-30>>, <<-60,0,1,-1>>,
                 <<1,2,3,4>>, <<5,-4,3,-2>>, <<-7,1,1,1>>, <<1,7,-1,-1>>, <<0,3,4,0>>, <<0,-2,1,2>> >>
HalfAngles == << <<1,0>>, <<1,1>>, <<1,-1>>, <<0,1>>, <<2,1>>, <<3,-1>>, <<-1,1>>, <<-1,2>>, <<5,1>>, <<1,-4>> >>
Conventions == << "XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX", "XYX", "XZX", "YXY", "YZY", "ZXZ", "ZYZ" >>
AxisOf == [XYZ |-> <<1,2,3>>, XZY |-> <<1,3,2>>, YXZ |-> <<2,1,3>>, YZX |-> <<2,3,1>>, ZXY |-> <<3,1,2>>, ZYX |-> <<3,2,1>>,
           XYX |-> <<1,2,1>>, XZX |-> <<1,3,1>>, YXY |-> <<2,1,2>>, YZY |-> <<2,3,2>>, ZXZ |-> <<3,1,3>>, ZYZ |-> <<3,2,3>>]
\* rotation of Euler angles: about the first axis, then about the moved second, then about the moved third
QOfEuler(conv, e) == LET ax == AxisOf[conv] IN QMul(QAxis(ax[1], e[1]), QMul(QAxis(ax[2], e[2]), QAxis(ax[3], e[3])))
\* the middle angle must not be at (or next to) the end of its range
Singular(q, conv) ==
  LET ax == AxisOf[conv]
      m == QMat(q)
      c == m[3 * (ax[1] - 1) + ax[3]]
  IN 100 * Abs(c) > 99 * QNormSq(q)

\* representations: matrix, 4x4 matrix, quaternion (real part first / last), axis-angle vector, axis and angle,
\* Euler angles, 6D, 9D, position and quaternion
Edges == [ m |-> << "q", "v", "d6", "m44", "e", "e" >>,
           m44 |-> << "d9", "pr", "m" >>,
           q |-> << "m", "v", "x", "std" >>,
           x |-> << "q", "m44" >>,
           v |-> << "m", "q", "aa" >>,
           aa |-> << "m", "m44", "v" >>,
           d6 |-> << "m" >>, d9 |-> << "m44" >>, pr |-> << "m44", "x" >>,
           e |-> << "m", "q" >> ]
Reps == << "m", "q", "x", "v", "aa", "d6", "d9", "pr", "m44" >>
Mats(qs) == [ i \in 1..Len(qs) |-> QMat(qs[i]) \o << QNormSq(qs[i]) >> ]
Emit(e) == log' = Append(log, e)

\* angular velocities << x, y, z, d >>, meaning (x, y, z) / d
RVel(v) == LET g == GcdSeq(v[4], v, 1) IN << v[1] \div g, v[2] \div g, v[3] \div g, v[4] \div g >>
Vec(v) == << v[1], v[2], v[3] >>
\* m v, for a matrix m over the denominator n
Turned(m, n, v) == RVel(MVec(m, Vec(v)) \o << n * v[4] >>)
CanTurn(v, q) == Abs(v[1]) + Abs(v[2]) + Abs(v[3]) + v[4] <= 1000000000 \div QNormSq(q)
Velocity(k) == << HN(rs, k, 7) - 3, HN(rs, k + 1, 7) - 3, HN(rs, k + 2, 7) - 3, 1 + HN(rs, k + 3, 2) >>
Velocities(n) == [ i \in 1..n |-> IF Exhaustive THEN << 1, -2, 3, 2 >> ELSE Velocity(100 + 10 * i) ]

Close(q) == 100 * (q[2] * q[2] + q[3] * q[3] + q[4] * q[4]) < QNormSq(q)
GBatch(n, k) == [ i \in 1..n |-> HPick(Quats, rs, k + i) ]
\* begin with rotations given in some representation, possibly with whole turns added, quaternions possibly negated
StartRep == \E n \in IF Exhaustive THEN { 1 } ELSE { 1 + HN(rs, 1, MaxBatch) }, r \in Either({ "m" }, HPick(Reps, rs, 2)) :
            \E qs \in Either({ << q >> : q \in Range(Quats) }, GBatch(n, 10)) :
              \* close to the identity an axis cannot follow every velocity
              LET r2 == IF r = "aa" /\ \E i \in 1..n : Close(qs[i]) THEN "m" ELSE r IN
              /\ cur' = qs /\ vel' = Velocities(n) /\ rep' = << r2, "" >>
              /\ Emit([op |-> "start", vel |-> vel', rep |-> r2, conv |-> "", qs |-> qs, turns |-> [ i \in 1..n |-> HN(rs, 30 + i, 5) - 2 ],
                       neg |-> [ i \in 1..n |-> HN(rs, 40 + i, 2) ], f |-> HN(rs, 3, 2), shape |-> HN(rs, 4, 4), exp |-> Mats(qs)])
StartEuler == \E n \in { 1 + HN(rs, 1, MaxBatch) }, conv \in { HPick(Conventions, rs, 2) } :
              \E es \in { [ i \in 1..n |-> << HPick(HalfAngles, rs, 10 + 3 * i), HPick(HalfAngles, rs, 11 + 3 * i), HPick(HalfAngles, rs, 12 + 3 * i) >> ] } :
                LET qs == [ i \in 1..n |-> ReduceQ(QOfEuler(conv, es[i])) ]
                IN /\ cur' = qs /\ rep' = << "e", conv >>
                   \* where the middle angle is singular, only changes of the other two are possible
                   /\ vel' = [ i \in 1..n |-> IF Singular(qs[i], conv) THEN << IF AxisOf[conv][1] = 1 THEN 2 ELSE 0, IF AxisOf[conv][1] = 2 THEN 2 ELSE 0,
                                                                                 IF AxisOf[conv][1] = 3 THEN 2 ELSE 0, 1 >> ELSE Velocity(100 + 10 * i) ]
                   /\ Emit([op |-> "start", vel |-> vel', rep |-> "e", conv |-> conv, es |-> es, turns |-> [ i \in 1..n |-> HN(rs, 40 + i, 5) - 2 ],
                            f |-> HN(rs, 3, 2), shape |-> HN(rs, 4, 4), exp |-> Mats(qs)])
Start == IF Exhaustive THEN StartRep ELSE IF Chance(30, rs, 5) THEN StartEuler ELSE StartRep

Convert ==
  \E to \in Either(Range(Edges[rep[1]]), HPick(Edges[rep[1]], rs, 1)) :
  \E conv \in IF to # "e" THEN { "" } ELSE Either(Range(Conventions), HPick(Conventions, rs, 2)) :
    LET bad == \/ to = "e" /\ \E i \in 1..Len(cur) : Singular(cur[i], conv)
               \/ to = "aa" /\ \E i \in 1..Len(cur) : Close(cur[i])
        t == IF bad THEN "q" ELSE IF to = "std" THEN "q" ELSE to
    IN /\ rep' = IF t = "e" THEN << "e", conv >> ELSE << t, "" >>
       /\ Emit([op |-> "convert", from |-> rep[1], fconv |-> rep[2], to |-> IF bad THEN "q" ELSE to, conv |-> conv, way |-> HN(rs, 3, 4), exp |-> Mats(cur), vel |-> vel])
       /\ UNCHANGED << cur, vel >>

\* products, inverses and applications exist for matrices and quaternions
Multiply ==
  \E qs \in Either({ << q >> : q \in Range(Quats) }, IF Chance(30, rs, 1) THEN GBatch(1, 10) ELSE GBatch(Len(cur), 10)), left_ \in Either({ TRUE, FALSE }, Chance(50, rs, 2)) :
    LET b(i) == IF Len(qs) = 1 THEN qs[1] ELSE qs[i]
        ok == \A i \in 1..Len(cur) : CanMul(cur[i], b(i)) /\ CanTurn(vel[i], b(i))
        new == [ i \in 1..Len(cur) |-> ReduceQ(IF left_ THEN QMul(b(i), cur[i]) ELSE QMul(cur[i], b(i))) ]
    IN IF ok THEN /\ cur' = new /\ UNCHANGED rep
                  /\ vel' = [ i \in 1..Len(cur) |-> IF left_ THEN Turned(QMat(b(i)), QNormSq(b(i)), vel[i]) ELSE vel[i] ]
                  /\ Emit([op |-> "multiply", rep |-> rep[1], by |-> qs, left |-> left_, way |-> HN(rs, 3, 4), exp |-> Mats(new), vel |-> vel'])
       ELSE Convert
Invert == LET new == [ i \in 1..Len(cur) |-> QConj(cur[i]) ]
          IN IF \E i \in 1..Len(cur) : ~CanTurn(vel[i], cur[i]) THEN Convert
             ELSE /\ cur' = new /\ UNCHANGED rep
                  /\ vel' = [ i \in 1..Len(cur) |-> Turned(MScale(-1, QMat(new[i])), QNormSq(cur[i]), vel[i]) ]
                  /\ Emit([op |-> "invert", rep |-> rep[1], exp |-> Mats(new), vel |-> vel'])
Point(k) == << HN(rs, k, 9) - 4, HN(rs, k + 1, 9) - 4, HN(rs, k + 2, 9) - 4 >>
ApplyTo == LET ps == IF Exhaustive THEN << <<1,-2,3>> >> ELSE [ i \in 1..(IF Chance(30, rs, 4) THEN 1 ELSE Len(cur)) |-> Point(10 + 3 * i) ]
               p(i) == IF Len(ps) = 1 THEN ps[1] ELSE ps[i]
           IN /\ UNCHANGED << cur, vel, rep >>
              /\ Emit([op |-> "apply", rep |-> rep[1], pts |-> ps, exp |-> Mats(cur), vel |-> vel,
                       out |-> [ i \in 1..Len(cur) |-> MVec(QMat(cur[i]), p(i)) \o << QNormSq(cur[i]) >> ]])

Step == /\ left > 0
        /\ IF log = <<>> THEN Start
           ELSE IF rep[1] = "q" /\ ~Exhaustive
                THEN LET h == HN(rs, 7, 10) IN IF h < 5 THEN Convert ELSE IF h < 7 THEN Multiply ELSE IF h < 8 THEN Invert ELSE ApplyTo
           ELSE IF rep[1] = "q" THEN Convert \/ Multiply \/ Invert \/ ApplyTo
           ELSE Convert
        /\ left' = left - 1 /\ rs' = RsNext(rs)
Init == rs \in RsInit /\ cur = <<>> /\ vel = <<>> /\ rep = << "m", "" >> /\ log = <<>> /\ left = NumOps
Finish == /\ left = 0 /\ left' = -1
          /\ IF Exhaustive THEN TRUE ELSE PrintT("@@" \o ToJson(log))
          /\ UNCHANGED << rs, cur, vel, rep, log >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == left \in -1..NumOps
QRigid(q) == LET m == QMat(q)  n == QNormSq(q) IN MMul(m, MT(m)) = MScale(n * n, MId) /\ Det(m) = n * n * n
\* unit quaternion product, conjugate and sandwich are matrix product, transpose and matrix-vector product
Homomorphism ==
  \A i \in 1..Len(cur) :
    /\ QRigid(cur[i])
    /\ QMat(QConj(cur[i])) = MT(QMat(cur[i]))
    /\ QMat(QNeg(cur[i])) = QMat(cur[i])
    /\ LET s == QMul(QMul(cur[i], <<0, 1, -2, 3>>), QConj(cur[i]))
       IN s[1] = 0 /\ << s[2], s[3], s[4] >> = MVec(QMat(cur[i]), <<1, -2, 3>>)
    /\ \A k \in 1..Len(Quats) :
         LET b == Quats[k]  p == QMul(cur[i], b) IN QMat(p) = MMul(QMat(cur[i]), QMat(b))
\* when the Euler angles are not singular, they exist: the matrix entries fit the three rotations
Last == log[Len(log)]
MulOK == (log # <<>> /\ Last.op = "multiply") => \A i \in 1..Len(cur) : QRigid(cur[i])
\* The derivative of rotation q (over n) that rotates with velocity v: hat(v) q, over its denominator.
DMat(q, v) == [m |-> MMul(Hat(Vec(v)), QMat(q)), d |-> QNormSq(q) * v[4]]
\* it is tangent to the rotations: the derivative of R R^T vanishes
Tangent == \A i \in 1..Len(cur) : LET d == MMul(DMat(cur[i], vel[i]).m, MT(QMat(cur[i]))) IN MAdd(d, MT(d)) = MZero
Safety == Tangent /\ TypeOK /\ Homomorphism /\ MulOK
\* converting does not rotate
Kept == [][ (log' # log /\ log # <<>> /\ log'[Len(log')].op \in {"convert", "apply"}) => \A i \in 1..Len(cur) : QMat(cur'[i]) = QMat(cur[i]) ]_vars
\* the product rule for products and inverses
Transported ==
  [][ (log' # log /\ log # <<>>) =>
      \A i \in 1..Len(cur) :
        LET e == log'[Len(log')]
            old == DMat(cur[i], vel[i])
            new == DMat(cur'[i], vel'[i])
        IN CASE e.op = "multiply" -> LET b == QMat(e.by[1])  n == QNormSq(e.by[1])
                                     IN RMEq(IF e.left THEN MMul(b, old.m) ELSE MMul(old.m, b), old.d * n, new.m, new.d)
             [] e.op = "invert" -> RMEq(MT(old.m), old.d, new.m, new.d)
             [] OTHER -> new = old ]_vars
=============================================================================
