-------------------------------- MODULE Kin ---------------------------------
(***************************************************************************)
(* Kinematic trees and what is true of them: poses, derivatives, Jacobians,*)
(* gradients, paths.  A tree is a sequence of frames; the parent of a frame*)
(* comes before it.  A frame is                                            *)
(*  par  index of the parent (0: root)                                     *)
(*  id  number of the frame in the tree it was created in, also naming its  *)
(*      joint           jt   "F", "R" or "P" (fixed, revolute, prismatic)  *)
(*  ax  integer axis vector (its direction is what matters)                *)
(*  jo, lo  joint and link offset: <<>> (none) or <<pose>>                 *)
(*  lim, vlim, elim     <<>> or <<low, high>> in eighths                   *)
(* A configuration maps frame ids to joint values: <<a, k, m>> for a revolute  *)
(* joint (rotation by 2*atan2(k*|ax|, a) + 2*pi*m) and <<num, den>> for a  *)
(* prismatic one (translation by num/den times the vector ax, that is a    *)
(* joint value of |ax|*num/den).                                           *)
(***************************************************************************)
EXTENDS Geom, FiniteSets

Ids(tree) == { tree[i].id : i \in 1..Len(tree) }
Moving(tree) == { i \in 1..Len(tree) : tree[i].jt # "F" }
ById(tree, n) == CHOOSE i \in 1..Len(tree) : tree[i].id = n
RECURSIVE KidsFrom(_, _, _)
KidsFrom(tree, i, j) == IF j > Len(tree) THEN <<>>
                        ELSE IF tree[j].par = i THEN << j >> \o KidsFrom(tree, i, j + 1)
                             ELSE KidsFrom(tree, i, j + 1)
Kids(tree, i) == KidsFrom(tree, i, 1)

\* depth-first, parents before children, children in order
RECURSIVE DfsFrom(_, _), DfsKids(_, _)
DfsFrom(tree, i) == << i >> \o DfsKids(tree, Kids(tree, i))
DfsKids(tree, ks) == IF ks = <<>> THEN <<>> ELSE DfsFrom(tree, Head(ks)) \o DfsKids(tree, Tail(ks))
Dfs(tree) == DfsFrom(tree, 1)

RECURSIVE PathTo(_, _)
PathTo(tree, i) == IF i = 0 THEN <<>> ELSE PathTo(tree, tree[i].par) \o << i >>
RECURSIVE IsAncestor(_, _, _)
IsAncestor(tree, a, i) == IF i = 0 THEN FALSE ELSE a = i \/ IsAncestor(tree, a, tree[i].par)
Below(tree, a) == { i \in 1..Len(tree) : IsAncestor(tree, a, i) }

---------------------------------------------------------------------------
(* poses *)
Opt(o) == IF o = <<>> THEN PId ELSE o[1]
Static(f) == PMul(Opt(f.lo), Opt(f.jo))
RevQuat(ax, v) == << v[1], v[2]*ax[1], v[2]*ax[2], v[2]*ax[3] >>
Motion(f, cfg) == IF f.jt = "R" THEN PRot(RevQuat(f.ax, cfg[f.id]))
                  ELSE IF f.jt = "P" THEN PTrans(VScale(cfg[f.id][1], f.ax), cfg[f.id][2])
                  ELSE PId
Local(f, cfg) == PMul(Static(f), Motion(f, cfg))

RECURSIVE WorldFrom(_, _, _)
WorldFrom(tree, cfg, acc) ==
  IF Len(acc) = Len(tree) THEN acc
  ELSE LET f == tree[Len(acc) + 1]
           w == IF f.par = 0 THEN Local(f, cfg) ELSE PMul(acc[f.par], Local(f, cfg))
       IN WorldFrom(tree, cfg, Append(acc, w))
World(tree, cfg) == WorldFrom(tree, cfg, <<>>)

\* the same pose as one product along the path, independently of the tree walk
RECURSIVE ProductAlong(_, _, _)
ProductAlong(tree, path, cfg) ==
  IF path = <<>> THEN PId
  ELSE LET f == tree[Head(path)]
       IN PMul(PMul(PMul(Opt(f.lo), Opt(f.jo)), Motion(f, cfg)), ProductAlong(tree, Tail(path), cfg))

---------------------------------------------------------------------------
(* derivatives with respect to joint j, times the length of its axis vector: *)
(* dual numbers carried along the path (product rule)                        *)
DZero == [r |-> MZero, t |-> <<0,0,0>>, d |-> 1]
DMotion(f, cfg) == IF f.jt = "R"
                   THEN LET m == Motion(f, cfg) IN [r |-> MMul(m.r, Hat(f.ax)), t |-> <<0,0,0>>, d |-> m.d]
                   ELSE IF f.jt = "P" THEN [r |-> MZero, t |-> f.ax, d |-> 1] ELSE DZero
\* (dual part of a product) p . dq, where dq has bottom row zero
MulD(p, dq) == Reduce([r |-> MMul(p.r, dq.r), t |-> MVec(p.r, dq.t), d |-> p.d * dq.d])
\* dp . q, where q is a pose
DMul(dp, q) == Reduce([r |-> MMul(dp.r, q.r), t |-> VAdd(MVec(dp.r, q.t), VScale(q.d, dp.t)), d |-> dp.d * q.d])
RECURSIVE DWorldFrom(_, _, _, _, _)
DWorldFrom(tree, cfg, world, j, acc) ==
  IF Len(acc) = Len(tree) THEN acc
  ELSE LET i == Len(acc) + 1
           f == tree[i]
           pw == IF f.par = 0 THEN PId ELSE world[f.par]
           d == IF i = j THEN MulD(PMul(pw, Static(f)), DMotion(f, cfg))
                ELSE IF f.par = 0 \/ acc[f.par] = DZero THEN DZero
                ELSE DMul(acc[f.par], Local(f, cfg))
       IN DWorldFrom(tree, cfg, world, j, Append(acc, d))
\* derivative of every frame's pose with respect to the joint of frame j
DWorld(tree, cfg, world, j) == DWorldFrom(tree, cfg, world, j, <<>>)

(* second derivatives by joints j and k, times the length of both axis vectors, given the first ones dj and dk *)
DDMotion(f, cfg) == IF f.jt = "R" THEN LET m == Motion(f, cfg) IN [r |-> MMul(MMul(m.r, Hat(f.ax)), Hat(f.ax)), t |-> <<0,0,0>>, d |-> m.d] ELSE DZero
RECURSIVE D2WorldFrom(_, _, _, _, _, _, _, _)
D2WorldFrom(tree, cfg, world, j, k, dj, dk, acc) ==
  IF Len(acc) = Len(tree) THEN acc
  ELSE LET i == Len(acc) + 1
           f == tree[i]
           pw == IF f.par = 0 THEN PId ELSE world[f.par]
           other(d) == IF f.par = 0 \/ d[f.par] = DZero THEN DZero ELSE MulD(DMul(d[f.par], Static(f)), DMotion(f, cfg))
           x == IF i = j /\ i = k THEN MulD(PMul(pw, Static(f)), DDMotion(f, cfg))
                ELSE IF i = j THEN other(dk)
                ELSE IF i = k THEN other(dj)
                ELSE IF f.par = 0 \/ acc[f.par] = DZero THEN DZero
                ELSE DMul(acc[f.par], Local(f, cfg))
       IN D2WorldFrom(tree, cfg, world, j, k, dj, dk, Append(acc, x))
D2World(tree, cfg, world, j, k, dj, dk) == D2WorldFrom(tree, cfg, world, j, k, dj, dk, <<>>)

(* derivative when the offset ("lo" or "jo") of frame o changes in direction dir (a dual part) *)
RECURSIVE DOffsetFrom(_, _, _, _, _, _, _)
DOffsetFrom(tree, cfg, world, o, which, dir, acc) ==
  IF Len(acc) = Len(tree) THEN acc
  ELSE LET i == Len(acc) + 1
           f == tree[i]
           pw == IF f.par = 0 THEN PId ELSE world[f.par]
           x == IF i = o THEN (IF which = "lo" THEN DMul(MulD(pw, dir), PMul(Opt(f.jo), Motion(f, cfg)))
                               ELSE DMul(MulD(PMul(pw, Opt(f.lo)), dir), Motion(f, cfg)))
                ELSE IF f.par = 0 \/ acc[f.par] = DZero THEN DZero
                ELSE DMul(acc[f.par], Local(f, cfg))
       IN DOffsetFrom(tree, cfg, world, o, which, dir, Append(acc, x))
DOffset(tree, cfg, world, o, which, dir) == DOffsetFrom(tree, cfg, world, o, which, dir, <<>>)

(* geometric Jacobian column of joint j for the point p/k of frame e: [lin, ang, d], times |ax| *)
GeoColumn(tree, world, j, e, p, k) ==
  LET w == world[j]
      z == MVec(w.r, tree[j].ax)                      \* over w.d
      pt == PAct(world[e], p, k)                      \* over pt.d
      \* lever arm pt - origin, over w.d * pt.d
      arm == VSub(VScale(w.d, pt.v), VScale(pt.d, w.t))
  IN IF tree[j].jt = "R"
     THEN [lin |-> Cross(z, arm), ld |-> w.d * w.d * pt.d, ang |-> z, ad |-> w.d]
     ELSE [lin |-> z, ld |-> w.d, ang |-> <<0,0,0>>, ad |-> 1]

\* sum of products of the 12 weights with derivative entries
Weighted(w, dp) == w[1]*dp.r[1]+w[2]*dp.r[2]+w[3]*dp.r[3]+w[4]*dp.r[4]+w[5]*dp.r[5]+w[6]*dp.r[6]
                   +w[7]*dp.r[7]+w[8]*dp.r[8]+w[9]*dp.r[9]+w[10]*dp.t[1]+w[11]*dp.t[2]+w[12]*dp.t[3]

---------------------------------------------------------------------------
(* the serial chain from frame r to frame e (r on the path to e) *)
RECURSIVE TailFrom(_, _)
TailFrom(path, r) == IF Head(path) = r THEN path ELSE TailFrom(Tail(path), r)
Extract(tree, r, e) ==
  LET path == TailFrom(PathTo(tree, e), r)
  IN [ i \in 1..Len(path) |->
         IF i = 1 THEN [tree[path[1]] EXCEPT !.par = 0, !.jt = "F", !.jo = <<>>, !.lo = <<>>,
                                            !.lim = <<>>, !.vlim = <<>>, !.elim = <<>>]
         ELSE [tree[path[i]] EXCEPT !.par = i - 1] ]

---------------------------------------------------------------------------
(* limits: unlimited is <<>>; values in eighths *)
ClampTo(lim, v) == IF lim = <<>> THEN v ELSE IF v < lim[1] THEN lim[1] ELSE IF v > lim[2] THEN lim[2] ELSE v
=============================================================================
