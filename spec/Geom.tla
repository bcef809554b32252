-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact rational geometry.  All numbers are integers; TLC raises an error *)
(* on 32-bit overflow, so whatever it evaluates is exact.                  *)
(*                                                                         *)
(* A pose (rigid motion) is [r |-> 9 integers (row major), t |-> 3         *)
(* integers, d |-> positive integer], standing for rotation r/d and        *)
(* translation t/d.  A rotation is given by an integer quaternion (a, v):  *)
(* rotation about v by 2*atan2(|v|, a), whose matrix is rational with      *)
(* denominator a^2 + |v|^2 even when |v| is irrational.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), Abs(a) % Abs(b))

\* gcd of d and the entries of s from position i on, stopping early at 1
RECURSIVE GcdSeq(_, _, _)
GcdSeq(d, s, i) == IF d = 1 \/ i > Len(s) THEN d
                   ELSE GcdSeq(Gcd(d, s[i]), s, i + 1)

Lcm(a, b) == (a \div Gcd(a, b)) * b

---------------------------------------------------------------------------
(* vectors *)
Dot(u, v)   == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross(u, v) == << u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1] >>
VScale(k, v) == << k*v[1], k*v[2], k*v[3] >>
VAdd(u, v) == << u[1]+v[1], u[2]+v[2], u[3]+v[3] >>
VSub(u, v) == << u[1]-v[1], u[2]-v[2], u[3]-v[3] >>
NormSq(v) == Dot(v, v)

(* 3x3 matrices, row major *)
MId == << 1,0,0, 0,1,0, 0,0,1 >>
MZero == << 0,0,0, 0,0,0, 0,0,0 >>
MMul(a, b) ==
  << a[1]*b[1]+a[2]*b[4]+a[3]*b[7], a[1]*b[2]+a[2]*b[5]+a[3]*b[8], a[1]*b[3]+a[2]*b[6]+a[3]*b[9],
     a[4]*b[1]+a[5]*b[4]+a[6]*b[7], a[4]*b[2]+a[5]*b[5]+a[6]*b[8], a[4]*b[3]+a[5]*b[6]+a[6]*b[9],
     a[7]*b[1]+a[8]*b[4]+a[9]*b[7], a[7]*b[2]+a[8]*b[5]+a[9]*b[8], a[7]*b[3]+a[8]*b[6]+a[9]*b[9] >>
MVec(a, v) == << a[1]*v[1]+a[2]*v[2]+a[3]*v[3], a[4]*v[1]+a[5]*v[2]+a[6]*v[3], a[7]*v[1]+a[8]*v[2]+a[9]*v[3] >>
MT(a) == << a[1],a[4],a[7], a[2],a[5],a[8], a[3],a[6],a[9] >>
MScale(k, a) == << k*a[1],k*a[2],k*a[3],k*a[4],k*a[5],k*a[6],k*a[7],k*a[8],k*a[9] >>
MAdd(a, b) == << a[1]+b[1],a[2]+b[2],a[3]+b[3],a[4]+b[4],a[5]+b[5],a[6]+b[6],a[7]+b[7],a[8]+b[8],a[9]+b[9] >>
Hat(v) == << 0, -v[3], v[2],  v[3], 0, -v[1],  -v[2], v[1], 0 >>
Det(a) == a[1]*(a[5]*a[9]-a[6]*a[8]) - a[2]*(a[4]*a[9]-a[6]*a[7]) + a[3]*(a[4]*a[8]-a[5]*a[7])

---------------------------------------------------------------------------
(* quaternions: << a, x, y, z >>, not normalised *)
QMul(p, q) ==
  << p[1]*q[1]-p[2]*q[2]-p[3]*q[3]-p[4]*q[4],
     p[1]*q[2]+p[2]*q[1]+p[3]*q[4]-p[4]*q[3],
     p[1]*q[3]-p[2]*q[4]+p[3]*q[1]+p[4]*q[2],
     p[1]*q[4]+p[2]*q[3]-p[3]*q[2]+p[4]*q[1] >>
QNormSq(q) == q[1]*q[1]+q[2]*q[2]+q[3]*q[3]+q[4]*q[4]
QConj(q) == << q[1], -q[2], -q[3], -q[4] >>
QNeg(q) == << -q[1], -q[2], -q[3], -q[4] >>
\* |q|^2 times the rotation matrix of q
QMat(q) ==
  LET a == q[1]  x == q[2]  y == q[3]  z == q[4]  n == QNormSq(q)
  IN << n - 2*(y*y+z*z), 2*(x*y-a*z), 2*(x*z+a*y),
        2*(x*y+a*z), n - 2*(x*x+z*z), 2*(y*z-a*x),
        2*(x*z-a*y), 2*(y*z+a*x), n - 2*(x*x+y*y) >>

---------------------------------------------------------------------------
(* poses *)
Reduce(p) == IF p.d = 1 THEN p
             ELSE LET g == GcdSeq(GcdSeq(p.d, p.r, 1), p.t, 1)
                  IN IF g = 1 THEN p
                     ELSE [r |-> << p.r[1] \div g, p.r[2] \div g, p.r[3] \div g,
                                    p.r[4] \div g, p.r[5] \div g, p.r[6] \div g,
                                    p.r[7] \div g, p.r[8] \div g, p.r[9] \div g >>,
                           t |-> << p.t[1] \div g, p.t[2] \div g, p.t[3] \div g >>,
                           d |-> p.d \div g]
PId == [r |-> MId, t |-> <<0,0,0>>, d |-> 1]
PRot(q) == Reduce([r |-> QMat(q), t |-> <<0,0,0>>, d |-> QNormSq(q)])
PTrans(t, d) == Reduce([r |-> MScale(d, MId), t |-> t, d |-> d])
\* rotation by q, then translation by t/d
PMake(q, t, d) == LET n == QNormSq(q)
                  IN Reduce([r |-> MScale(d, QMat(q)), t |-> VScale(n, t), d |-> n * d])
PMul(p, q) == Reduce([r |-> MMul(p.r, q.r),
                      t |-> VAdd(MVec(p.r, q.t), VScale(q.d, p.t)),
                      d |-> p.d * q.d])
PInv(p) == Reduce([r |-> MScale(p.d, MT(p.r)),
                   t |-> VScale(-1, MVec(MT(p.r), p.t)),
                   d |-> p.d * p.d])
\* image of the rational point v/k
PAct(p, v, k) == [v |-> VAdd(MVec(p.r, v), VScale(k, p.t)), d |-> p.d * k]
\* is it a rigid motion?
PRigid(p) == /\ p.d > 0
             /\ MMul(p.r, MT(p.r)) = MScale(p.d * p.d, MId)
             /\ Det(p.r) > 0
PEq(p, q) == Reduce(p) = Reduce(q)

\* a pose as 13 integers, for the outside world
Flat(p) == p.r \o p.t \o << p.d >>

\* equality of rational vectors v/d = w/e
RVEq(v, d, w, e) == VScale(e, v) = VScale(d, w)
RMEq(a, d, b, e) == MScale(e, a) = MScale(d, b)

---------------------------------------------------------------------------
(* rotation of roll, pitch, yaw about fixed axes; each angle is a pair <<a, k>> meaning 2*atan2(k, a) *)
QAxis(i, ak) == << ak[1], IF i = 1 THEN ak[2] ELSE 0, IF i = 2 THEN ak[2] ELSE 0, IF i = 3 THEN ak[2] ELSE 0 >>
QRpy(r, p, y) == QMul(QAxis(3, y), QMul(QAxis(2, p), QAxis(1, r)))
=============================================================================
