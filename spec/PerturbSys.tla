------------------------------ MODULE PerturbSys ------------------------------
(***************************************************************************)
(* Perturbations of a rigid transform.  A draw (one per seed and sample)   *)
(* is an axis u, a rotation about it by the angle of a quaternion s, and a *)
(* translation z; a perturbation with spreads (a, b) rotates by s^a about  *)
(* u and shifts by b z (without its part along u when an axis is given and *)
(* the shift has to be perpendicular).  The draws of the implementation    *)
(* are not predicted: the same seed has to stand for the same draws.       *)
(***************************************************************************)
EXTENDS Geom, Choice, FiniteSets, Json

CONSTANTS NumOps

VARIABLES rs, base, past, log, left
vars == << rs, base, past, log, left >>

Qs == << <<1,0,0,0>>, <<1,1,0,0>>, <<1,1,1,1>>, <<0,1,0,-1>>, <<2,1,0,-1>>, <<3,-1,2,0>>, <<1,0,2,0>> >>
\* axes of integer length
Axes == << [u |-> <<0,0,1>>, n |-> 1], [u |-> <<0,3,-4>>, n |-> 5], [u |-> <<-1,0,0>>, n |-> 1], [u |-> <<2,-1,2>>, n |-> 3], [u |-> <<2,3,6>>, n |-> 7] >>
Poses == IF Exhaustive THEN { PMake(Qs[i], <<1,-2,3>>, 2) : i \in {1, 3} }
         ELSE { PMake(HPick(Qs, rs, 1), << HN(rs, 2, 41) - 20, HN(rs, 3, 41) - 20, HN(rs, 4, 41) - 20 >>, 1 + HN(rs, 5, 4)) }
Emit(e) == log' = Append(log, e)

Place == \E n \in Either({ 1 }, IF Chance(30, rs, 11) THEN 2 + HN(rs, 12, 4) ELSE 1) :
         \E ps \in Either({ << p >> : p \in Poses }, [ i \in 1..n |-> PMake(HPick(Qs, rs, 20 + i), << HN(rs, 30 + i, 41) - 20, HN(rs, 40 + i, 41) - 20, HN(rs, 50 + i, 41) - 20 >>, 1 + HN(rs, 60 + i, 4)) ]) :
           /\ base' = ps /\ past' = <<>>
           /\ Emit([op |-> "place", exp |-> [ i \in 1..n |-> Flat(ps[i]) ], f |-> HN(rs, 6, 2)])
\* requests repeat seeds with other spreads
Sample == \E sd \in Either({ 1 }, 1 + HN(rs, 1, 3)), a \in Either(0..2, HN(rs, 2, 4)), b \in Either(0..2, HN(rs, 3, 4)),
             ax \in Either({0, 1, 4}, IF Chance(50, rs, 4) THEN 0 ELSE 1 + HN(rs, 4, 5)), perp \in Either({ TRUE, FALSE }, Chance(60, rs, 5)), n \in Either({ 1 }, 1 + HN(rs, 6, 6)) :
            LET k == IF Len(base) > 1 THEN Len(base) ELSE n
                same == { i \in 1..Len(past) : past[i].sd = sd /\ past[i].n = k /\ past[i].ax = ax /\ past[i].a > 0 /\ past[i].b > 0 }
                refs == IF same = {} \/ a = 0 \/ b = 0 THEN 0 ELSE CHOOSE i \in same : \A j \in same : i <= j
            IN /\ past' = Append(past, [sd |-> sd, n |-> k, ax |-> ax, a |-> a, b |-> b])
               /\ Emit([op |-> "sample", sd |-> sd, a |-> a, b |-> b, axis |-> IF ax = 0 THEN <<>> ELSE Axes[ax].u \o << Axes[ax].n >>, perp |-> perp, n |-> k, ref |-> refs,
                        way |-> HN(rs, 7, 6), many |-> ~Exhaustive /\ Len(base) = 1 /\ Chance(8, rs, 8)])
               /\ UNCHANGED base
Step == /\ left > 0
        /\ IF log = <<>> \/ (~Exhaustive /\ Chance(8, rs, 90)) THEN Place ELSE Sample
        /\ left' = left - 1 /\ rs' = RsNext(rs)
Init == rs \in RsInit /\ base = <<>> /\ past = <<>> /\ log = <<>> /\ left = NumOps
Finish == /\ left = 0 /\ left' = -1
          /\ IF Exhaustive THEN TRUE ELSE PrintT("@@" \o ToJson(log))
          /\ UNCHANGED << rs, base, past, log >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == left \in -1..NumOps
RECURSIVE QPow(_, _)
QPow(q, k) == IF k = 0 THEN <<1, 0, 0, 0>> ELSE QMul(q, QPow(q, k - 1))
\* the perturbation of pose p for a draw (rotation with integer quaternion part r about u, of length l; translation z)
Perp(z, u, l) == VSub(VScale(l * l, z), VScale(Dot(z, u), u))        \* over l^2
Spin(u, r, a) == LET s == QPow(<< r[1], r[2] * u[1], r[2] * u[2], r[2] * u[3] >>, a) IN PRot(s)
\* the shift as a rational vector z/d
Shift(u, l, z, b, given, perp) == IF given /\ perp THEN [z |-> VScale(b, Perp(z, u, l)), d |-> l * l] ELSE [z |-> VScale(b, z), d |-> 1]
Perturbed(p, spin, sh) ==
  LET q == Reduce([r |-> MMul(spin.r, p.r), t |-> <<0,0,0>>, d |-> spin.d * p.d])
  IN Reduce([r |-> MScale(p.d * sh.d, q.r), t |-> VScale(q.d, VAdd(VScale(sh.d, p.t), VScale(p.d, sh.z))), d |-> q.d * p.d * sh.d])
Draws == { [u |-> Axes[i], r |-> r, z |-> z] : i \in {1, 3, 4}, r \in { <<2, 1>>, <<1, -1>> }, z \in { <<1, 2, -1>>, <<0, -1, 1>> } }
Last == log[Len(log)]
Laws ==
  (log # <<>> /\ Last.op = "sample" /\ Len(base) = 1) =>
    LET p == base[1]  given == Last.axis # <<>> IN
    \A d \in Draws :
      LET g == IF given THEN [u |-> SubSeq(Last.axis, 1, 3), n |-> Last.axis[4]] ELSE d.u
          spin == Spin(g.u, d.r, Last.a)
          sh == Shift(g.u, g.n, d.z, Last.b, given, Last.perp)
          x == Perturbed(p, spin, sh)
          x3 == Perturbed(p, PId, Shift(g.u, g.n, d.z, 3 * Last.b, given, Last.perp))
          dt(y) == VSub(VScale(p.d, y.t), VScale(y.d, p.t))          \* over y.d p.d
      IN /\ PRigid(spin) /\ PRigid(p)
         /\ (Last.a = 0 /\ Last.b = 0) => PEq(x, p)
         /\ Last.a = 0 => RMEq(x.r, x.d, p.r, p.d)
         /\ Last.b = 0 => RVEq(x.t, x.d, p.t, p.d)
         /\ MVec(spin.r, g.u) = VScale(spin.d, g.u)                   \* only about the axis
         /\ PMul(Spin(g.u, d.r, 1), Spin(g.u, d.r, Last.a)) = Spin(g.u, d.r, Last.a + 1)
         /\ (given /\ Last.perp) => Dot(sh.z, g.u) = 0 /\ Dot(dt(x), g.u) = 0
         \* thrice the spread, thrice the shift
         /\ Last.a = 0 => RVEq(dt(x3), x3.d, VScale(3, dt(x)), x.d)
Safety == TypeOK /\ Laws
=============================================================================
