---------------------------- MODULE TransformSys -----------------------------
(***************************************************************************)
(* Batched affine transforms as values in registers: constructed, composed,*)
(* inverted, stacked, indexed, cloned, moved between precisions, chained   *)
(* with translations, rotations and scalings, and applied to points and    *)
(* normals.  A register holds [m |-> batch, v |-> velocities, dt, pr]      *)
(* where batch is a sequence of exact affine maps [r, t, d] (not           *)
(* necessarily rigid), and velocities their derivatives by a parameter of  *)
(* the arguments: the product rule says how they travel.                   *)
(***************************************************************************)
EXTENDS Geom, Choice, FiniteSets, Json

CONSTANTS NumOps, Big   \* Big bounds the integers in a register

VARIABLES rs, regs, log, left
vars == << rs, regs, log, left >>

---------------------------------------------------------------------------
(* affine maps *)
Small(p) == p.d <= Big /\ \A i \in 1..9 : Abs(p.r[i]) <= Big * 4
                       /\ \A k \in 1..3 : Abs(p.t[k]) <= Big * 8
Invertible(p) == Det(p.r) # 0
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Adj(a) ==
  << a[5]*a[9]-a[6]*a[8], a[3]*a[8]-a[2]*a[9], a[2]*a[6]-a[3]*a[5],
     a[6]*a[7]-a[4]*a[9], a[1]*a[9]-a[3]*a[7], a[3]*a[4]-a[1]*a[6],
     a[4]*a[8]-a[5]*a[7], a[2]*a[7]-a[1]*a[8], a[1]*a[5]-a[2]*a[4] >>
ReduceV(v, d) == LET g == GcdSeq(d, v, 1) IN [ v |-> [ i \in 1..Len(v) |-> v[i] \div g ], d |-> d \div g ]
\* inverse: linear part adj(A) d / det A, translation - adj(A) t / det A
AInv(p) == LET a == Adj(p.r)  e == Det(p.r)  s == Sgn(e)
           IN Reduce([r |-> MScale(s * p.d, a), t |-> VScale(-s, MVec(a, p.t)), d |-> s * e])
AScale(v, d) == Reduce([r |-> << v[1],0,0, 0,v[2],0, 0,0,v[3] >>, t |-> <<0,0,0>>, d |-> d])
\* normals are mapped by the inverse transpose of the linear part
ANormal(p, n) == LET i == AInv(p) IN ReduceV(MVec(MT(i.r), n), i.d)
APoint(p, x) == LET y == PAct(p, x, 1) IN ReduceV(y.v, y.d)

(* derivatives of affine maps: [r, t, d] like a map, but the last row of its matrix is 0; d = 0 if it is not tracked *)
VNone == [r |-> MZero, t |-> <<0,0,0>>, d |-> 0]
VZero == [r |-> MZero, t |-> <<0,0,0>>, d |-> 1]
Known(v) == v.d > 0
RECURSIVE MaxAbs(_, _, _)
MaxAbs(m, s, i) == IF i > Len(s) THEN m ELSE MaxAbs(IF Abs(s[i]) > m THEN Abs(s[i]) ELSE m, s, i + 1)
Bnd(p) == MaxAbs(MaxAbs(p.d, p.r, 1), p.t, 1)
\* products of entries of p and q, and sums of four of them, do not overflow
Room(p, q) == Bnd(p) <= 400000000 \div Bnd(q)
VA(dA, B) == IF Known(dA) /\ Room(dA, B) THEN PMul(dA, B) ELSE VNone
AV(A, dB) == IF Known(dB) /\ Room(A, dB) THEN Reduce([r |-> MMul(A.r, dB.r), t |-> MVec(A.r, dB.t), d |-> A.d * dB.d]) ELSE VNone
VSum(x, y) == IF Known(x) /\ Known(y) /\ Room(x, y)
              THEN Reduce([r |-> MAdd(MScale(y.d, x.r), MScale(x.d, y.r)), t |-> VAdd(VScale(y.d, x.t), VScale(x.d, y.t)), d |-> x.d * y.d]) ELSE VNone
VNeg(x) == [r |-> MScale(-1, x.r), t |-> VScale(-1, x.t), d |-> x.d]
VMul(A, dA, B, dB) == VSum(VA(dA, B), AV(A, dB))
VInv(A, dA) == LET i == AInv(A) IN VNeg(AV(i, VA(dA, i)))
\* velocities of rotations (about a fixed point), translations and scalings
VRot(q, w) == Reduce([r |-> MMul(Hat(w), QMat(q)), t |-> <<0,0,0>>, d |-> QNormSq(q)])
VTrans(u, d) == [r |-> MZero, t |-> u, d |-> d]
VPose(q, w, u, e) == VSum(VRot(q, w), VTrans(u, e))

---------------------------------------------------------------------------
(* batches *)
Max(a, b) == IF a > b THEN a ELSE b
Compatible(a, b) == Len(a) = Len(b) \/ Len(a) = 1 \/ Len(b) = 1
At(b, i) == IF Len(b) = 1 THEN b[1] ELSE b[i]
BMul(a, b) == [ i \in 1..Max(Len(a), Len(b)) |-> PMul(At(a, i), At(b, i)) ]
BVMul(a, va, b, vb) == [ i \in 1..Max(Len(a), Len(b)) |-> VMul(At(a, i), At(va, i), At(b, i), At(vb, i)) ]
BInv(a) == [ i \in 1..Len(a) |-> AInv(a[i]) ]
BSmall(a) == \A i \in 1..Len(a) : Small(a[i])
BInvertible(a) == \A i \in 1..Len(a) : Invertible(a[i])
BFlat(a) == [ i \in 1..Len(a) |-> Flat(a[i]) ]

---------------------------------------------------------------------------
(* domains *)
Quats == IF Exhaustive THEN << <<1,0,0,1>>, <<2,1,0,0>> >>
         ELSE << <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,-1,0>>, <<1,0,0,1>>, <<0,1,0,0>>, <<0,0,0,1>>, <<0,1,1,0>>, <<0,0,1,-1>>,
                 <<1,1,1,1>>, <<1,-1,1,1>>, <<-1,1,1,-1>>, <<2,1,0,0>>, <<2,0,-1,0>>, <<1,1,1,0>>, <<-1,-2,0,2>> >>
HalfAngles == << <<1,0>>, <<1,1>>, <<1,-1>>, <<0,1>>, <<2,1>>, <<3,-1>>, <<-1,1>> >>
Ints == << 0, 1, -1, 2, -2, 3, -3, 5 >>
Scales == << 1, 2, -1, 3, -2, 1 >>
Dts == IF Exhaustive THEN << "f64" >> ELSE << "f32", "f64" >>
Sizes == IF Exhaustive THEN << 1, 2 >> ELSE << 1, 1, 2, 2, 3, 4, 5 >>
GVec(k) == << HPick(Ints, rs, k), HPick(Ints, rs, k + 1), HPick(Ints, rs, k + 2) >>
GQuat(k) == HPick(Quats, rs, k)
GDen(k) == HPick(<< 1, 1, 2, 4 >>, rs, k)
GScale(k) == << HPick(Scales, rs, k), HPick(Scales, rs, k + 1), HPick(Scales, rs, k + 2) >>
QEuler(e) == QMul(QAxis(1, e[1]), QMul(QAxis(2, e[2]), QAxis(3, e[3])))
GEuler(k) == << HPick(HalfAngles, rs, k), HPick(HalfAngles, rs, k + 1), HPick(HalfAngles, rs, k + 2) >>

Kinds == << "identity", "matrix", "pos", "quat", "rotmat", "euler", "pos_quat", "pos_rotmat", "pos_euler", "matrix_pos", "matrix_rot",
            "translate", "scale", "scale1", "rotate_m", "rotate_q", "rotate_e", "axis" >>
\* arguments and value of one element of a newly made transform
Elem(kind, k) ==
  LET q == GQuat(k)  v == GVec(k + 1)  e == GDen(k + 5)  s == GScale(k + 6)  eu == GEuler(k + 10)  ax == 1 + HN(rs, 1000, 3)
      ha == HPick(HalfAngles, rs, k + 14)
      \* rates of the arguments: angular velocity or rates of the first and last angle, velocity, rates of scales
      w == GVec(k + 31)  u == GVec(k + 34)  g == GVec(k + 37)
      eq == QEuler(eu)
      ew == VSum(VRot(eq, << w[1], 0, 0 >>), Reduce([r |-> MMul(QMat(eq), Hat(<< 0, 0, w[3] >>)), t |-> <<0,0,0>>, d |-> QNormSq(eq)]))
      vel == [w |-> w, u |-> u, g |-> g, x |-> v, e |-> e]
      sv == [r |-> << g[1],0,0, 0,g[2],0, 0,0,g[3] >>, t |-> <<0,0,0>>, d |-> e]
      sv1 == [r |-> MScale(g[1], MId), t |-> <<0,0,0>>, d |-> e]
      aw == IF ax = 1 THEN << w[1], 0, 0 >> ELSE IF ax = 2 THEN << 0, w[1], 0 >> ELSE << 0, 0, w[1] >>
      With(r, dv) == [arg |-> r.arg, val |-> r.val, vel |-> vel, dm |-> dv]
  IN CASE kind = "identity" -> With([arg |-> <<>>, val |-> PId], VZero)
       [] kind = "matrix" -> LET p == IF Chance(30, rs, k + 20) THEN PMul(PMake(q, v, e), AScale(s, 1)) ELSE PMake(q, v, e)
                             IN With([arg |-> Flat(p), val |-> p], [r |-> w \o u \o g, t |-> v, d |-> 2])
       [] kind \in {"pos", "translate"} -> With([arg |-> << v, e >>, val |-> PTrans(v, e)], VTrans(u, e))
       [] kind \in {"quat", "rotate_q"} -> With([arg |-> q, val |-> PRot(q)], VRot(q, w))
       [] kind \in {"rotmat", "rotate_m"} -> With([arg |-> Flat(PRot(q)), val |-> PRot(q)], VRot(q, w))
       [] kind \in {"euler", "rotate_e"} -> With([arg |-> eu, val |-> PRot(QEuler(eu))], ew)
       [] kind = "pos_quat" -> With([arg |-> << v, e, q >>, val |-> PMake(q, v, e)], VPose(q, w, u, e))
       [] kind = "pos_rotmat" -> With([arg |-> << v, e, Flat(PRot(q)) >>, val |-> PMake(q, v, e)], VPose(q, w, u, e))
       [] kind = "pos_euler" -> With([arg |-> << v, e, eu >>, val |-> PMake(QEuler(eu), v, e)], VSum(ew, VTrans(u, e)))
       [] kind = "matrix_pos" -> LET p == PMake(q, GVec(k + 30), 1) IN With([arg |-> << Flat(p), v, e >>, val |-> PMake(q, v, e)], VPose(q, w, u, e))
       [] kind = "matrix_rot" -> LET p == PMake(GQuat(k + 30), v, e) IN With([arg |-> << Flat(p), q >>, val |-> PMake(q, v, e)], VPose(q, w, u, e))
       [] kind = "scale" -> With([arg |-> << s, e >>, val |-> AScale(s, e)], sv)
       [] kind = "scale1" -> With([arg |-> << s[1], e >>, val |-> AScale(<< s[1], s[1], s[1] >>, e)], sv1)
       [] kind = "axis" -> With([arg |-> << ax, ha >>, val |-> PRot(QAxis(ax, ha))], VRot(QAxis(ax, ha), aw))
Elems(kind, n, k) == [ i \in 1..n |-> Elem(kind, k + 50 * i) ]

ExhElems(n) == { [ i \in 1..n |-> [arg |-> Flat(p[i]), val |-> p[i], vel |-> <<>>, dm |-> [r |-> << 0,-1,0, 1,0,0, 0,i,1 >>, t |-> << 1,0,-2 >>, d |-> 1]] ] :
                   p \in [ 1..n -> { PMake(<<1,0,0,1>>, <<1,0,2>>, 1), PMul(PMake(<<1,1,0,0>>, <<0,-1,1>>, 2), AScale(<<1,2,-1>>, 1)), PId } ] }

---------------------------------------------------------------------------
Emit(e) == log' = Append(log, e)
Reg(m, v, dt, pr) == [m |-> m, v |-> v, dt |-> dt, pr |-> pr]
Put(r) == regs' = Append(regs, r)
Worst(a, b) == IF a = "f32" \/ b = "f32" THEN "f32" ELSE "f64"

Make == \E kind \in Either({ "matrix" }, HPick(Kinds, rs, 2)), n \in Pick(Sizes, rs, 3), dt \in Pick(Dts, rs, 4) :
        \E es \in Either(ExhElems(n), Elems(kind, n, 100)) :
          /\ Put(Reg([ i \in 1..Len(es) |-> es[i].val ], [ i \in 1..Len(es) |-> es[i].dm ], dt, dt))
          /\ Emit([op |-> "make", kind |-> kind, dt |-> dt, style |-> HN(rs, 5, 60),
                   args |-> [ i \in 1..Len(es) |-> es[i].arg ], rates |-> [ i \in 1..Len(es) |-> es[i].vel ],
                   exp |-> BFlat([ i \in 1..Len(es) |-> es[i].val ]), vel |-> BFlat([ i \in 1..Len(es) |-> es[i].dm ])])

\* choose registers
R(k) == IF Exhaustive THEN 1..Len(regs) ELSE { IF Chance(50, rs, k) THEN Len(regs) ELSE 1 + HN(rs, k + 1, Len(regs)) }

Compose(a, b) ==
  IF ~Compatible(regs[a].m, regs[b].m)
  THEN UNCHANGED regs /\ Emit([op |-> "bad_compose", a |-> a, b |-> b])
  ELSE LET m == BMul(regs[a].m, regs[b].m)
           v == BVMul(regs[a].m, regs[a].v, regs[b].m, regs[b].v)
       IN /\ IF BSmall(m) THEN Put(Reg(m, v, regs[a].dt, Worst(regs[a].pr, regs[b].pr))) ELSE UNCHANGED regs
          /\ Emit([op |-> "compose", a |-> a, b |-> b, keep |-> BSmall(m), dt |-> regs[a].dt,
                   pr |-> Worst(regs[a].pr, regs[b].pr), exp |-> BFlat(m), vel |-> BFlat(v)])
Compose3(a, b, c) ==
  IF Compatible(regs[a].m, regs[b].m) /\ Compatible(regs[a].m, regs[c].m) /\ Compatible(regs[b].m, regs[c].m)
     /\ BSmall(BMul(regs[a].m, regs[b].m))
  THEN LET m == BMul(BMul(regs[a].m, regs[b].m), regs[c].m)
           v == BVMul(BMul(regs[a].m, regs[b].m), BVMul(regs[a].m, regs[a].v, regs[b].m, regs[b].v), regs[c].m, regs[c].v)
       IN UNCHANGED regs /\ Emit([op |-> "compose3", vel |-> BFlat(v), a |-> a, b |-> b, c |-> c, dt |-> regs[a].dt,
               pr |-> Worst(Worst(regs[a].pr, regs[b].pr), regs[c].pr), exp |-> BFlat(m)])
  ELSE Compose(a, b)
Inverse(a) ==
  IF ~BInvertible(regs[a].m) THEN UNCHANGED regs /\ Emit([op |-> "len", a |-> a, n |-> Len(regs[a].m)])
  ELSE LET m == BInv(regs[a].m)
           v == [ i \in 1..Len(m) |-> VInv(regs[a].m[i], regs[a].v[i]) ]
       IN /\ IF BSmall(m) THEN Put(Reg(m, v, regs[a].dt, regs[a].pr)) ELSE UNCHANGED regs
          /\ Emit([op |-> "inverse", vel |-> BFlat(v), a |-> a, keep |-> BSmall(m), dt |-> regs[a].dt, pr |-> regs[a].pr, exp |-> BFlat(m)])
Stack(a, b) ==
  IF regs[a].dt # regs[b].dt \/ Len(regs[a].m) + Len(regs[b].m) > 12 THEN UNCHANGED regs /\ Emit([op |-> "len", a |-> a, n |-> Len(regs[a].m)])
  ELSE LET m == regs[a].m \o regs[b].m
           v == regs[a].v \o regs[b].v
       IN /\ Put(Reg(m, v, regs[a].dt, Worst(regs[a].pr, regs[b].pr)))
          /\ Emit([op |-> "stack", vel |-> BFlat(v), a |-> a, b |-> b, dt |-> regs[a].dt, pr |-> Worst(regs[a].pr, regs[b].pr), exp |-> BFlat(m)])
\* selections of a batch of n, as sequences of positions
Selections(n) == { << i >> : i \in 1..n } \cup { [ i \in 1..n |-> n + 1 - i ] }
Index(a) ==
  LET n == Len(regs[a].m)
  IN \E sel \in Either(Selections(n), [ i \in 1..(1 + HN(rs, 21, n)) |-> 1 + HN(rs, 21 + i, n) ]) :
       LET kind == HPick(<< "int", "negint", "list", "slice", "mask", "tensor" >>, rs, 20)
           lo == sel[1]
           s == CASE kind \in {"int", "negint"} -> << lo >>
                  [] kind = "slice" -> [ i \in 1..(n - lo + 1) |-> lo + i - 1 ]
                  [] kind = "mask" -> SelectSeq([ i \in 1..n |-> i ], LAMBDA i : i \in Range(sel))
                  [] OTHER -> sel
           m == [ i \in 1..Len(s) |-> regs[a].m[s[i]] ]
           v == [ i \in 1..Len(s) |-> regs[a].v[s[i]] ]
       IN /\ Put(Reg(m, v, regs[a].dt, regs[a].pr))
          /\ Emit([op |-> "index", vel |-> BFlat(v), a |-> a, kind |-> kind, sel |-> s, n |-> n, dt |-> regs[a].dt, pr |-> regs[a].pr, exp |-> BFlat(m)])
Clone(a) == /\ Put(regs[a])
            /\ Emit([op |-> "clone", vel |-> BFlat(regs[a].v), a |-> a, dt |-> regs[a].dt, pr |-> regs[a].pr, exp |-> BFlat(regs[a].m), scribble |-> HN(rs, 30, 2)])
Move(a) == \E dt \in Pick(Dts, rs, 40) :
             /\ Put(Reg(regs[a].m, regs[a].v, dt, Worst(dt, regs[a].pr)))
             /\ Emit([op |-> "to", vel |-> BFlat(regs[a].v), a |-> a, dt |-> dt, pr |-> Worst(dt, regs[a].pr), copy |-> HN(rs, 41, 2), exp |-> BFlat(regs[a].m)])
\* t.translate(...), t.rotate(...), t.scale(...), t.rotate_axis_angle(...): compose with what is denoted
Chain(a) ==
  LET kind == HPick(<< "translate", "scale", "scale1", "rotate_m", "rotate_q", "rotate_e", "axis" >>, rs, 50)
      n == IF Chance(60, rs, 51) THEN 1 ELSE Len(regs[a].m)
      es == Elems(kind, n, 200)
      m == BMul(regs[a].m, [ i \in 1..n |-> es[i].val ])
      v == BVMul(regs[a].m, regs[a].v, [ i \in 1..n |-> es[i].val ], [ i \in 1..n |-> es[i].dm ])
  IN /\ IF BSmall(m) THEN Put(Reg(m, v, regs[a].dt, regs[a].pr)) ELSE UNCHANGED regs
     /\ Emit([op |-> "chain", vel |-> BFlat(v), rates |-> [ i \in 1..n |-> es[i].vel ], a |-> a, kind |-> kind, style |-> HN(rs, 5, 60), keep |-> BSmall(m), dt |-> regs[a].dt, pr |-> regs[a].pr,
              args |-> [ i \in 1..n |-> es[i].arg ], exp |-> BFlat(m)])

GPoints(n, k) == [ i \in 1..n |-> GVec(k + 10 * i) ]
ApplyB(a, what, ps, b2b) ==
  LET m == regs[a].m
      f(p, x) == IF what = "points" THEN APoint(p, x) ELSE ANormal(p, x)
  IN IF b2b THEN [ i \in 1..Len(m) |-> << f(m[i], ps[i]) >> ]
     ELSE [ i \in 1..Len(m) |-> [ j \in 1..Len(ps) |-> f(m[i], ps[j]) ] ]
Out(o) == [ i \in 1..Len(o) |-> [ j \in 1..Len(o[i]) |-> o[i][j].v \o << o[i][j].d >> ] ]
Apply(a) ==
  LET what == HPick(<< "points", "normals", "points" >>, rs, 60)
      shape == HPick(<< "P3", "1P3", "NP3", "b2b" >>, rs, 61)
      n == Len(regs[a].m)
      np == 1 + HN(rs, 62, 4)
  IN IF what = "normals" /\ ~BInvertible(regs[a].m) THEN Emit([op |-> "len", a |-> a, n |-> n])
     ELSE \E dt \in Pick(Dts, rs, 63) :
          \* NP3: N different sets of points, one for each transform (or N sets for a single transform)
          LET nb == IF shape = "NP3" THEN IF n = 1 THEN 1 + HN(rs, 64, 3) ELSE n ELSE 1
              sets == [ i \in 1..nb |-> GPoints(np, 300 + 100 * i) ]
              f(p, x) == IF what = "points" THEN APoint(p, x) ELSE ANormal(p, x)
              o == IF shape = "b2b" THEN [ i \in 1..n |-> << f(regs[a].m[i], GPoints(n, 400)[i]) >> ]
                   ELSE [ i \in 1..Max(n, nb) |-> [ j \in 1..np |-> f(At(regs[a].m, i), At(sets, i)[j]) ] ]
          IN Emit([op |-> "apply", a |-> a, what |-> what, shape |-> shape, dt |-> regs[a].dt, pr |-> regs[a].pr, pdt |-> dt,
                   pts |-> IF shape = "b2b" THEN << GPoints(n, 400) >> ELSE sets, exp |-> Out(o), eps |-> HN(rs, 65, 2)])

\* projective transforms on points: the last coordinate divides, kept away from zero by eps/8 on request
GProj(k) == LET z == HN(rs, k, 4) IN << HPick(Ints, rs, k + 1), HPick(Ints, rs, k + 2), HPick(Ints, rs, k + 3), IF z = 0 THEN 0 ELSE HPick(Ints, rs, k + 4) >>
\* numerators over the denominator w/8 after keeping |w| at least eps/8; w = 0 counts as positive
Divide(y, w8, eps) == LET s == Sgn(w8)  d == s * Max(Abs(w8), eps) IN << 8 * y[1], 8 * y[2], 8 * y[3], d >>
Project(a) ==
  LET n == Len(regs[a].m)
      b2b == Chance(35, rs, 76)
      np == IF b2b THEN n ELSE 1 + HN(rs, 71, 4)
      eps == HPick(<< 0, 1, 4, 8, 12, 24 >>, rs, 72)
      last == [ i \in 1..n |-> GProj(500 + 10 * i) ]
      pts == GPoints(np, 700)
      \* the matrix d [R t; l m]/d of one transform on one point: R x + t over l.x + m, all over d
      f(p, l, x) == LET y == PAct(p, x, 1) w == Dot(<< l[1], l[2], l[3] >>, x) + l[4]
                    IN << y.v, y.d, w >>
      \* value: (y.v / y.d) / w
      val(p, l, x) == LET r == f(p, l, x)  q == Divide(r[1], 8 * r[3], eps) IN << q[1], q[2], q[3], q[4] * r[2] >>
      o == [ i \in 1..n |-> [ j \in 1..(IF b2b THEN 1 ELSE np) |-> val(regs[a].m[i], last[i], IF b2b THEN pts[i] ELSE pts[j]) ] ]
  IN IF \E i \in 1..n : \E j \in 1..Len(o[i]) : o[i][j][4] = 0 THEN Emit([op |-> "len", a |-> a, n |-> n])
     ELSE Emit([op |-> "project", a |-> a, last |-> last, pts |-> pts, b2b |-> b2b, eps |-> eps, dt |-> regs[a].dt, pr |-> regs[a].pr, exp |-> o])

Bad(a) == Emit([op |-> "bad", a |-> a, kind |-> HN(rs, 70, 9), n |-> Len(regs[a].m)])

Ops == << "make", "compose", "compose", "compose", "compose3", "inverse", "inverse", "stack", "index", "index", "clone", "to", "chain", "chain", "apply", "apply", "apply", "project", "bad" >>
ExhOps == << "make", "compose", "inverse", "stack", "index", "apply_all" >>
Do(name) ==
  CASE name = "make" -> Make
    [] name = "compose" -> \E a \in R(10), b \in R(12) : Compose(a, b)
    [] name = "compose3" -> \E a \in R(10), b \in R(12), c \in R(14) : Compose3(a, b, c)
    [] name = "inverse" -> \E a \in R(10) : Inverse(a)
    [] name = "stack" -> \E a \in R(10), b \in R(12) : Stack(a, b)
    [] name = "index" -> \E a \in R(10) : Index(a)
    [] name = "clone" -> \E a \in R(10) : Clone(a)
    [] name = "to" -> \E a \in R(10) : Move(a)
    [] name = "chain" -> \E a \in R(10) : Chain(a)
    [] name = "apply" -> \E a \in R(10) : Apply(a) /\ UNCHANGED regs
    [] name = "project" -> \E a \in R(10) : Project(a) /\ UNCHANGED regs
    [] name = "apply_all" -> \E a \in 1..Len(regs) :
          UNCHANGED regs /\ Emit([op |-> "apply", a |-> a, what |-> "points", exp |-> Out(ApplyB(a, "points", << <<1,2,-1>>, <<0,0,3>> >>, FALSE))])
    [] name = "bad" -> \E a \in R(10) : Bad(a) /\ UNCHANGED regs

Init == rs \in RsInit /\ regs = <<>> /\ log = <<>> /\ left = NumOps
Step == /\ left > 0
        /\ IF Len(regs) < 2 THEN Make
           ELSE \E name \in IF Exhaustive THEN Range(ExhOps) ELSE { HPick(Ops, rs, 1) } : Do(name)
        /\ left' = left - 1 /\ rs' = RsNext(rs)
Finish == /\ left = 0 /\ left' = -1
          /\ IF Exhaustive THEN TRUE ELSE PrintT("@@" \o ToJson(log))
          /\ UNCHANGED << rs, regs, log >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == left \in -1..NumOps
\* laws of the algebra, on every pair of registers
BEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : PEq(a[i], b[i])
IdLike(a) == \A i \in 1..Len(a) : PEq(a[i], PId)
\* (for the newest register with every other; older pairs were judged before)
Newest == IF regs = <<>> THEN {} ELSE { Len(regs) }
Laws ==
  \A a \in 1..Len(regs) :
    LET A == regs[a].m
    IN /\ (a \in Newest /\ BInvertible(A)) => IdLike(BMul(A, BInv(A))) /\ IdLike(BMul(BInv(A), A)) /\ BEq(BInv(BInv(A)), A)
       /\ a \in Newest => BEq(BMul(A, << PId >>), A) /\ BEq(BMul(<< PId >>, A), A)
       /\ \A b \in IF a \in Newest THEN 1..Len(regs) ELSE Newest :
            LET B == regs[b].m
            IN Compatible(A, B) =>
                 LET AB == BMul(A, B)
                 IN \* composition applies the right transform first
                    /\ \A i \in 1..Len(AB) : LET y == PAct(At(B, i), <<1,-2,3>>, 1)
                                                 z == PAct(At(A, i), y.v, y.d)
                                                 w == PAct(AB[i], <<1,-2,3>>, 1)
                                             IN RVEq(z.v, z.d, w.v, w.d)
                    /\ BInvertible(AB) => BEq(BInv(AB), BMul(BInv(B), BInv(A)))
                    \* normals stay orthogonal to tangents
                    /\ BInvertible(A) => \A i \in 1..Len(A) :
                          LET n == ANormal(A[i], <<1,2,0>>)  t == MVec(A[i].r, <<-2,1,5>>) IN Dot(n.v, t) = 0
Assoc == \A a, b, c \in 1..Len(regs) : Newest \cap {a, b, c} # {} =>
           LET A == regs[a].m  B == regs[b].m  C == regs[c].m
           IN (Compatible(A, B) /\ Compatible(B, C) /\ Compatible(A, C)) => BEq(BMul(BMul(A, B), C), BMul(A, BMul(B, C)))
\* the product rule: inverses, products of three in either order
VEq(x, y) == (Known(x) /\ Known(y)) => Reduce(x) = Reduce(y)
Leibniz ==
  /\ \A a \in Newest : BInvertible(regs[a].m) => \A i \in 1..Len(regs[a].m) :
        LET A == regs[a].m[i]  v == regs[a].v[i]  I == AInv(A)  vi == VInv(A, v)
        IN VEq(VMul(A, v, I, vi), VZero) /\ VEq(VMul(I, vi, A, v), VZero) /\ VEq(VInv(I, vi), v)
  /\ \A a, b \in 1..Len(regs) : (Newest \cap {a, b} # {} /\ Compatible(regs[a].m, regs[b].m)) =>
        LET A == regs[a].m[1]  v == regs[a].v[1]  B == regs[b].m[1]  w == regs[b].v[1]
        IN /\ (Invertible(A) /\ Invertible(B)) => VEq(VInv(PMul(A, B), VMul(A, v, B, w)), VMul(AInv(B), VInv(B, w), AInv(A), VInv(A, v)))
           /\ VEq(VMul(PMul(A, B), VMul(A, v, B, w), A, v), VMul(A, v, PMul(B, A), VMul(B, w, A, v)))
Safety == TypeOK /\ Laws /\ Assoc
Frozen == [][ Len(regs') >= Len(regs) /\ SubSeq(regs', 1, Len(regs)) = regs ]_vars
=============================================================================
