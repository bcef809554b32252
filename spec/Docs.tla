-------------------------------- MODULE Docs --------------------------------
(***************************************************************************)
(* Robot description documents and what they mean.                         *)
(* A frame of a described robot carries `doc`, what the file says about it:*)
(*  URDF  the origin of its joint (which attributes are present; roll,     *)
(*        pitch, yaw as half-angle pairs; translation t/den), whether it is*)
(*        continuous, and its limit element with optional bounds           *)
(*  SDF   the pose of its link in the model frame, and optional bounds     *)
(*  MJCF  how the orientation of the body or site is written, its position,*)
(*        and the optional range of its joint                              *)
(* Meaning gives a document's joint offset, link offset and limits, and    *)
(* Shapes what is seen of the link: each visual (in MJCF, geom) with its   *)
(* kind, its pose in the link and its dimensions.                          *)
(***************************************************************************)
EXTENDS Kin, Choice

CONSTANT Format   \* "api" (no document), "urdf", "sdf" or "mjcf"

Infinite == 1000000   \* a missing side of a limit

Angles == IF Exhaustive THEN << <<1,0>>, <<1,1>> >>
          ELSE << <<1,0>>, <<1,0>>, <<1,0>>, <<1,1>>, <<1,-1>>, <<0,1>>, <<-1,1>>, <<2,1>>, <<-1,2>>, <<1,-2>>, <<3,1>>, <<-3,1>>, <<1,3>> >>
RightAngles == << <<1,0>>, <<1,1>>, <<1,-1>>, <<0,1>>, <<-1,1>> >>
Qxyz(a) == QMul(QAxis(1, a[1]), QMul(QAxis(2, a[2]), QAxis(3, a[3])))   \* about moving axes, as in MJCF
RpyPose(x) == PMake(QRpy(x.rpy[1], x.rpy[2], x.rpy[3]), x.t, x.den)

\* the pose of a URDF origin with the attributes that are present: 0 none (or no element), 1 xyz, 2 both, 3 rpy
OriginPose(x) == CASE x.org = 0 -> PId
                   [] x.org = 1 -> PTrans(x.t, x.den)
                   [] x.org = 2 -> RpyPose(x)
                   [] x.org = 3 -> PRot(QRpy(x.rpy[1], x.rpy[2], x.rpy[3]))
UrdfLim(x) == IF x.lx = 0 \/ x.cont THEN <<>>
              ELSE << IF x.lx \in {2, 4} THEN 0 ELSE x.low, IF x.lx \in {3, 4} THEN 0 ELSE x.high >>
Both(x, v) == IF x.lx = 0 THEN <<>> ELSE << -v, v >>
SdfLim(x) == IF x.lx = 0 THEN <<>>
             ELSE << IF x.lx \in {2, 4} THEN -Infinite ELSE x.low, IF x.lx \in {3, 4} THEN Infinite ELSE x.high >>
MjcfLim(x) == IF x.lx = 1 THEN << x.low, x.high >> ELSE <<>>
MjcfPose(x) == CASE x.org = 0 -> PTrans(x.t, x.den)                     \* no orientation
                 [] x.org \in {1, 3, 4} -> PMake(x.q, x.t, x.den)       \* quat, axisangle, xyaxes
                 [] x.org = 2 -> PMake(Qxyz(x.rpy), x.t, x.den)         \* euler

VisPose(v) == CASE Format = "urdf" -> OriginPose(v)
                [] Format = "sdf" -> IF v.org = 0 THEN PId ELSE RpyPose(v)
                [] Format = "mjcf" -> MjcfPose(v)
Shapes(x) == IF Format = "api" THEN <<>> ELSE [ i \in 1..Len(x.vis) |-> << x.vis[i].kind, Flat(VisPose(x.vis[i])), x.vis[i].dims >> ]

\* what the document says about a frame, given what it says about its parent
Meaning(f, parDoc) ==
  LET x == f.doc
  IN CASE Format = "urdf" ->
            [f EXCEPT !.lo = <<>>, !.jo = IF f.par = 0 THEN <<>> ELSE << OriginPose(x) >>,
                      !.lim = IF f.par = 0 THEN <<>> ELSE UrdfLim(x),
                      !.vlim = IF f.par = 0 THEN <<>> ELSE Both(x, x.vel), !.elim = IF f.par = 0 THEN <<>> ELSE Both(x, x.eff)]
       [] Format = "sdf" ->
            [f EXCEPT !.lo = <<>>,
                      !.jo = << IF f.par = 0 THEN RpyPose(x) ELSE PMul(PInv(RpyPose(parDoc)), RpyPose(x)) >>,
                      !.lim = IF f.par = 0 THEN <<>> ELSE SdfLim(x), !.vlim = <<>>, !.elim = <<>>]
       [] Format = "mjcf" ->
            [f EXCEPT !.jo = <<>>, !.lo = IF f.par = 0 THEN <<>> ELSE << MjcfPose(x) >>,
                      !.lim = IF f.par = 0 THEN <<>> ELSE MjcfLim(x), !.vlim = <<>>, !.elim = <<>>]
       [] OTHER -> f

\* --- reading a document whose elements come in any order: js the frames with a joint, par naming the parent link
RECURSIVE Gather(_, _, _)
Gather(js, acc, i) ==
  IF i > Len(acc) THEN acc
  ELSE LET kids == SelectSeq(js, LAMBDA f : f.par = acc[i].id)
       IN Gather(js, acc \o [ k \in 1..Len(kids) |-> [Meaning(kids[k], acc[i].doc) EXCEPT !.par = i] ], i + 1)
RootOf(ls, js) == CHOOSE l \in Range(ls) : \A i \in 1..Len(js) : js[i].id # l.id
ReadDoc(ls, js) == LET r == RootOf(ls, js) IN Gather(js, << Meaning([r EXCEPT !.par = 0], <<>>) >>, 1)

\* the part of a model below body r
SubTree(tree, r) ==
  LET ix == SelectSeq([ i \in 1..Len(tree) |-> i ], LAMBDA i : IsAncestor(tree, r, i))
      pos(i) == CHOOSE k \in 1..Len(ix) : ix[k] = i
  IN [ k \in 1..Len(ix) |->
        IF ix[k] = r THEN [tree[r] EXCEPT !.par = 0, !.jt = "F", !.lim = <<>>]
        ELSE [tree[ix[k]] EXCEPT !.par = pos(@)] ]

\* --- generating documents (k: index of the first choice)
GenAngles(rs, k, room) ==
  LET one == IF HN(rs, k, 3) = 0
             THEN << HPick(Angles, rs, k + 1), <<1,0>>, <<1,0>> >>
             ELSE << HPick(Angles, rs, k + 1), HPick(Angles, rs, k + 2), HPick(Angles, rs, k + 3) >>
  IN IF PRot(QRpy(one[1], one[2], one[3])).d <= room /\ PRot(Qxyz(one)).d <= room THEN one
     ELSE << HPick(RightAngles, rs, k + 4), HPick(RightAngles, rs, k + 5), HPick(RightAngles, rs, k + 6) >>
GenBounds(rs, k) ==   \* << lx, low, high >>
  LET lx == HPick(<< 0, 1, 1, 1, 2, 3, 4 >>, rs, k)
      c == HN(rs, k + 1, 41) - 20
      w == 1 + HN(rs, k + 2, 30)
  IN << lx, IF lx = 3 THEN -Abs(c - w) ELSE c - w, IF lx = 2 THEN Abs(c + w) ELSE c + (w \div 2) >>
=============================================================================
