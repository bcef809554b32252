------------------------------ MODULE ChainSys ------------------------------
(***************************************************************************)
(* The system of chains a program works with: a robot is grown frame by    *)
(* frame, made into a chain, serial chains are extracted from chains,      *)
(* chains are moved between precisions, and queries are made in any order. *)
(* Every query is logged with its arguments and its exact expected answer; *)
(* the log of a behaviour is replayed into the implementation.             *)
(***************************************************************************)
EXTENDS Docs, Json

CONSTANTS MinFrames, MaxFrames,   \* size of the tree
          NumOps,                 \* operations after the tree is complete
          OpMix,                  \* sequence of operation names (repeat an entry to favour it)
          StaticBudget, MotionBudget,  \* bounds on denominators along a path
          RootJoint,              \* may the root frame have a moving joint of its own?
          LinkOffsets,            \* may links have offsets of their own (besides joint offsets)?
          Straight,               \* no branches
          MaxCfgs,                \* configurations per query
          FewForms                \* pass configurations as tensors only

VARIABLES rs, phase, target, tree, bd, chains, log, left
vars == << rs, phase, target, tree, bd, chains, log, left >>

---------------------------------------------------------------------------
(* domains *)
SeqOf(a, b) == [ i \in 1..(b - a + 1) |-> a + i - 1 ]
Axes == IF Exhaustive
        THEN << <<1,0,0>>, <<0,-1,1>> >>
        ELSE << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<-1,0,0>>, <<0,-1,0>>, <<0,0,-1>>, <<0,0,2>>, <<0,-3,0>>,
                <<1,1,0>>, <<0,1,-1>>, <<-1,0,1>>, <<1,1,1>>, <<1,-1,1>>, <<-1,-1,-1>>,
                <<1,2,2>>, <<2,-1,2>>, <<0,3,4>>, <<-3,0,4>>, <<1,2,0>>, <<1,-2,3>> >>
JTypes == IF Exhaustive THEN << "F", "R", "P" >> ELSE << "F", "F", "R", "R", "R", "R", "R", "P", "P" >>
RevVals == IF Exhaustive THEN << <<1,0,0>>, <<1,1,0>>, <<2,-1,0>> >>
           ELSE << <<1,0,0>>, <<1,1,0>>, <<1,-1,0>>, <<0,1,0>>, <<2,1,0>>, <<2,-1,0>>, <<1,2,0>>, <<-1,2,0>>, <<3,1,0>>, <<-1,1,0>>,
                   <<3,-1,0>>, <<1,3,0>>, <<4,1,0>>, <<3,2,0>>, <<2,-3,0>>, <<7,-1,0>>, <<1,1,1>>, <<1,-1,-1>>, <<2,1,-1>>, <<3,-2,2>>, <<1,0,1>>,
                   <<-2,1,0>>, <<1,-3,0>>, <<5,1,0>>, <<5,-2,0>> >>
RevFallback == << <<1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<1,-1,0>>, <<1,0,-1>>, <<-1,1,0>> >>
PrisVals == IF Exhaustive THEN << <<0,1>>, <<1,2>> >>
            ELSE << <<0,1>>, <<1,1>>, <<-1,1>>, <<3,1>>, <<-2,1>>, <<1,2>>, <<-3,2>>, <<5,4>>, <<-7,4>>, <<10,1>> >>
Quats == IF Exhaustive THEN << <<1,0,0,0>>, <<1,0,0,1>> >>
         ELSE << <<1,0,0,0>>, <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,-1,0>>, <<1,0,0,1>>, <<0,1,0,0>>, <<0,0,0,1>>, <<0,1,1,0>>, <<0,0,1,-1>>,
                 <<1,1,1,1>>, <<1,-1,1,1>>, <<-1,1,1,-1>>, <<2,1,0,0>>, <<2,0,-1,0>>, <<3,0,0,1>>, <<1,1,1,0>>, <<2,1,1,0>>, <<2,-1,0,2>>, <<1,2,2,0>>, <<3,1,-1,1>> >>
OctQuats == << <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,-1,0>>, <<1,0,0,1>>, <<0,1,0,0>>, <<0,0,1,1>>, <<1,1,1,1>>, <<1,-1,1,1>> >>
Coords == IF Exhaustive THEN << 0, 1 >> ELSE << 0, 0, 1, -1, 2, -2, 3, -3, 1, 5 >>
Dens == IF Exhaustive THEN << 1 >> ELSE << 1, 1, 2, 4, 5 >>
Tools == IF Exhaustive THEN << <<>>, << <<0,-2,1>>, 3 >> >> ELSE << <<>>, << <<0,0,0>>, 1 >>, << <<1,0,0>>, 2 >>, << <<0,-2,1>>, 1 >>, << <<3,1,-2>>, 4 >>, << <<-1,5,2>>, 2 >> >>
\* ways of passing a configuration: see the replay harness
Forms == IF Exhaustive THEN << "t2" >> ELSE IF FewForms THEN << "t2", "t2", "t1", "t2_strided", "t2_f" >> ELSE
         << "t2", "t1", "n2", "n1", "list", "dict_f", "dict_t0", "dict_t1", "dict_n1", "t2_strided", "t2_expand", "t2_grad",
            "t2_f", "dict_rev", "dict_tN", "dict_c1" >>
\* how the configurations are laid out in a batch: number of rows and which configuration comes when
Layouts == IF Exhaustive THEN << "each" >> ELSE << "each", "once", "tile3", "tile7", "tile64", "tile257", "rev", "tile1025", "none" >>
SmallLayouts == IF Exhaustive THEN << "each" >> ELSE << "each", "once", "tile3", "rev", "tile7", "none" >>
Min2(a, b) == IF a < b THEN a ELSE b
Has(name) == name \in Range(OpMix)
Dtypes == IF Exhaustive /\ ~Has("to") THEN << "f64" >> ELSE << "f32", "f64" >>

\* a random offset within the budget left on the path
GenQuat(k, room) == LET q == HPick(Quats, rs, k)
                    IN IF PRot(q).d <= room THEN q ELSE HPick(OctQuats, rs, k)
GenTrans(k) == << HPick(Coords, rs, k), HPick(Coords, rs, k + 1), HPick(Coords, rs, k + 2) >>
GenPose(k, room) == LET q == GenQuat(k, room)
                        e == HPick(Dens, rs, k + 5)
                        den == IF PRot(q).d * e <= room THEN e ELSE 1
                    IN PMake(q, GenTrans(k + 6), den)
GenOpt(k, room, p) == IF Chance(p, rs, k) THEN << GenPose(k + 1, room) >> ELSE <<>>
GenLim(k) == IF Chance(35, rs, k) THEN <<>>
             ELSE LET c == HN(rs, k + 1, 41) - 20
                      w == HN(rs, k + 2, 30)
                      h == HN(rs, k + 3, 100)
                  IN IF h < 10 THEN << c, c >> ELSE IF h < 17 THEN << c - w, Infinite >> ELSE IF h < 24 THEN << -Infinite, c + w >>
                     ELSE << c - w, c + (w \div 2) >>
GenVlim(k) == IF Chance(40, rs, k) THEN <<>> ELSE LET v == HN(rs, k + 1, 50) IN << -v, v >>

Frame(id, par, jt, ax, lo, jo, lim, vlim, elim) ==
  [id |-> id, par |-> par, jt |-> jt, ax |-> ax, lo |-> lo, jo |-> jo, lim |-> lim, vlim |-> vlim, elim |-> elim, doc |-> <<>>]
GenApiFrame(par, room) ==
  LET jt == IF par = 0 /\ ~RootJoint THEN "F" ELSE HPick(JTypes, rs, 11)
      lo == IF LinkOffsets THEN GenOpt(20, room, 35) ELSE <<>>
      jo == GenOpt(40, room \div Opt(lo).d, 80)
      lim == IF jt = "F" /\ Chance(70, rs, 69) THEN <<>> ELSE GenLim(70)
  IN Frame(Len(tree) + 1, par, jt, HPick(Axes, rs, 12), lo, jo, lim, GenVlim(80), GenVlim(90))

\* a frame described in a file, with the meaning it has there
Described(par, jt, ax, doc) ==
  Meaning([Frame(Len(tree) + 1, par, jt, ax, <<>>, <<>>, <<>>, <<>>, <<>>) EXCEPT !.doc = doc], IF par = 0 THEN <<>> ELSE tree[par].doc)
GenVis(k) ==
  LET a == GenAngles(rs, k, 5)
  IN [kind |-> HPick(IF Format = "mjcf" THEN << "box", "cylinder", "sphere", "capsule", "ellipsoid" >>
                     ELSE IF Format = "urdf" THEN << "box", "cylinder", "sphere", "mesh", "scaled" >>
                     ELSE << "box", "cylinder", "sphere", "mesh" >>, rs, k + 20),
      org |-> HPick(IF Format = "mjcf" THEN << 0, 1, 2, 3, 4 >> ELSE IF Format = "sdf" THEN << 0, 2, 2 >> ELSE << 0, 1, 2, 2, 3 >>, rs, k + 21),
      rpy |-> a, q |-> HPick(Quats, rs, k + 22), t |-> GenTrans(k + 23), den |-> HPick(Dens, rs, k + 26),
      dims |-> << 1 + HN(rs, k + 27, 20), 1 + HN(rs, k + 28, 20), 1 + HN(rs, k + 29, 20) >>]
GenVisuals(k) == [ i \in 1..HPick(<< 0, 1, 1, 2, 3 >>, rs, k) |-> GenVis(k + 40 * i) ]
GenDoc(k, par, room, tries) ==
  LET a == GenAngles(rs, k, IF tries = 0 THEN 1 ELSE room)
      rot == PRot(QRpy(a[1], a[2], a[3])).d
      e == HPick(Dens, rs, k + 11)
      den == IF tries > 0 /\ rot * e <= room THEN e ELSE 1
      b == GenBounds(rs, k + 12)
      q == GenQuat(k + 20, room \div den)
  IN [org |-> HPick(IF Format = "mjcf" THEN << 0, 1, 1, 2, 2, 3, 4 >> ELSE << 0, 1, 2, 2, 2, 2, 3 >>, rs, k + 15),
      rpy |-> a, q |-> q, t |-> GenTrans(k + 16), den |-> den, cont |-> HN(rs, k + 23, 3) = 0,
      site |-> Format = "mjcf" /\ par # 0 /\ HN(rs, k + 24, 5) = 0,
      lx |-> b[1], low |-> b[2], high |-> b[3], vel |-> 1 + HN(rs, k + 25, 50), eff |-> 1 + HN(rs, k + 26, 90),
      vis |-> IF Format = "mjcf" /\ par # 0 /\ HN(rs, k + 24, 5) = 0 THEN <<>> ELSE GenVisuals(9000)]
GenDescribed(par, room) ==
  LET jt == IF par = 0 THEN "F" ELSE HPick(JTypes, rs, 11)
      d1 == GenDoc(100, par, IF Format = "sdf" THEN 5 ELSE room, 1)
      f1 == Described(par, IF d1.site THEN "F" ELSE jt, HPick(Axes, rs, 12), [d1 EXCEPT !.cont = @ /\ jt = "R"])
      d0 == GenDoc(100, par, 1, 0)
  IN IF Opt(f1.lo).d * Opt(f1.jo).d <= room THEN f1
     ELSE Described(par, f1.jt, f1.ax, [f1.doc EXCEPT !.rpy = d0.rpy, !.q = <<1,0,0,0>>, !.t = d0.t, !.den = 1])
GenFrame(par, room) == IF Format = "api" THEN GenApiFrame(par, room) ELSE GenDescribed(par, room)
ExhDescribed(par) ==
  { Described(par, IF site THEN "F" ELSE jt, <<0,-1,1>>,
              [org |-> org, rpy |-> << a, <<1,0>>, y >>, q |-> <<1,0,1,0>>, t |-> <<1,0,-2>>, den |-> 1, cont |-> cont,
               site |-> site, lx |-> lx, low |-> -4, high |-> 8, vel |-> 3, eff |-> 5, vis |-> <<>>]) :
      jt \in IF par = 0 THEN {"F"} ELSE {"R", "F"},
      cont \in IF Format = "urdf" /\ Has("limits") THEN BOOLEAN ELSE {FALSE},
      site \in IF Format = "mjcf" /\ par # 0 THEN BOOLEAN ELSE {FALSE},
      org \in IF Has("limits") THEN {2} ELSE 0..3, a \in Range(Angles),
      y \in IF Has("limits") THEN { <<1,0>> } ELSE Range(Angles), lx \in IF Has("limits") THEN 0..4 ELSE {1} }
ExhOffsets == { <<>>, << PMake(<<1,0,0,1>>, <<1,0,-1>>, 1) >> }
ExhFrames(par) ==
  { Frame(Len(tree) + 1, par, jt, ax, <<>>, jo, lim, <<>>, <<>>) :
      jt \in IF par = 0 /\ ~RootJoint THEN {"F"} ELSE Range(JTypes), ax \in Range(Axes), jo \in ExhOffsets,
      lim \in IF Has("clamp") \/ Has("limits") THEN { <<>>, << -4, 8 >> } ELSE { <<>> } }
\* without pointless variation of what a fixed joint never uses
ExhFrames1(par) == IF Format # "api" THEN ExhDescribed(par) ELSE { f \in ExhFrames(par) : f.jt = "F" => (f.ax = <<1,0,0>> /\ f.lim = <<>>) }

\* parent of the next frame: chains, stars, combs and anything in between
GenParent == LET n == Len(tree)  h == HN(rs, 1, 10)
             IN IF h < 5 \/ Straight THEN n ELSE IF h < 6 THEN 1 ELSE 1 + HN(rs, 2, n)

---------------------------------------------------------------------------
(* configurations *)
RECURSIVE GenValsFrom(_, _, _, _)
GenValsFrom(t, k, acc, ds) ==
  IF Len(acc) = Len(t) THEN acc
  ELSE LET i == Len(acc) + 1
           f == t[i]
           base == IF f.par = 0 THEN 1 ELSE ds[f.par]
           room == MotionBudget \div base
           c == HPick(RevVals, rs, k + i)
           cc == IF PRot(RevQuat(f.ax, c)).d <= room THEN c
                 ELSE LET d == HPick(RevFallback, rs, k + i)
                      IN IF PRot(RevQuat(f.ax, d)).d <= room THEN d ELSE <<1, 0, 0>>
           e == HPick(PrisVals, rs, k + i)
           ee == IF e[2] <= room THEN e ELSE << e[1], 1 >>
           v == IF f.jt = "R" THEN cc ELSE IF f.jt = "P" THEN ee ELSE <<>>
           cost == IF f.jt = "R" THEN PRot(RevQuat(f.ax, cc)).d ELSE IF f.jt = "P" THEN ee[2] ELSE 1
       IN GenValsFrom(t, k, Append(acc, v), Append(ds, base * cost))
\* values for all frames of the original tree, of which chains use their own
GenCfg(k) == GenValsFrom(tree, k, <<>>, <<>>)
GenCfgs(k) == [ i \in 1..(1 + HN(rs, k, MaxCfgs)) |-> GenCfg(k + 100 * i) ]
RECURSIVE ExhCfgs(_)
ExhCfgs(t) == IF t = <<>> THEN { <<>> }
              ELSE LET f == t[Len(t)]
                       vs == IF f.jt = "R" THEN Range(RevVals) ELSE IF f.jt = "P" THEN Range(PrisVals) ELSE { <<>> }
                   IN { Append(c, v) : c \in ExhCfgs(SubSeq(t, 1, Len(t) - 1)), v \in vs }
CfgsChoice(k) == Either({ << c >> : c \in ExhCfgs(tree) }, GenCfgs(k))

---------------------------------------------------------------------------
(* actions *)
Emit(e) == log' = Append(log, e)

Init == /\ rs \in RsInit
        /\ phase = "grow"
        /\ target \in IF Exhaustive THEN MinFrames..MaxFrames ELSE { MinFrames + HN(rs, 3, MaxFrames - MinFrames + 1) }
        /\ tree = <<>> /\ bd = <<>> /\ chains = <<>> /\ log = <<>> /\ left = NumOps

\* sites have no children
IsSite(i) == Format = "mjcf" /\ tree[i].doc.site
Body(i) == IF IsSite(i) THEN tree[i].par ELSE i
Grow == /\ phase = "grow" /\ Len(tree) < target
        /\ \E par \in IF tree = <<>> THEN {0} ELSE Either({ i \in 1..Len(tree) : ~IsSite(i) }, Body(GenParent)) :
             LET base == IF par = 0 THEN 1 ELSE bd[par]
             IN \E f \in Either(ExhFrames1(par), GenFrame(par, StaticBudget \div base)) :
                  /\ tree' = Append(tree, f)
                  /\ bd' = Append(bd, base * Opt(f.lo).d * Opt(f.jo).d)
        /\ rs' = RsNext(rs)
        /\ UNCHANGED << phase, target, chains, log, left >>

\* how the elements of a file are ordered: permutations of links and of joints
RECURSIVE ShuffleFrom(_, _, _)
ShuffleFrom(s, k, acc) == IF s = <<>> THEN acc
                          ELSE LET i == 1 + HN(rs, k, Len(s))
                               IN ShuffleFrom(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), k + 1, Append(acc, s[i]))
Orders(n, k) == IF Format \notin { "urdf", "sdf" } THEN { [ i \in 1..n |-> i ] }
                ELSE Either({ p \in [ 1..n -> 1..n ] : \A i, j \in 1..n : p[i] = p[j] => i = j },
                            ShuffleFrom([ i \in 1..n |-> i ], k, <<>>))
Loaded(links, joints, r) ==
  CASE Format = "api" -> tree
    [] Format = "mjcf" -> SubTree(tree, r)
    [] OTHER -> ReadDoc([ i \in 1..Len(links) |-> tree[links[i]] ],
                        LET js == SelectSeq(joints, LAMBDA i : tree[i].par # 0)
                        IN [ i \in 1..Len(js) |-> tree[js[i]] ])
Build == /\ phase = "grow" /\ Len(tree) = target
         /\ \E dt \in IF Format = "api" THEN Pick(Dtypes, rs, 1) ELSE { "f32" } :
            \E links \in Orders(Len(tree), 200), joints \in Orders(Len(tree), 300) :
            \E r \in IF Format # "mjcf" THEN { 1 }
                      ELSE Either({ i \in 1..Len(tree) : ~IsSite(i) }, IF Chance(60, rs, 5) THEN 1 ELSE Body(1 + HN(rs, 6, Len(tree)))) :
              /\ chains' = << [tree |-> Loaded(links, joints, r), serial |-> FALSE, dt |-> dt, pr |-> dt] >>
              /\ Emit([op |-> "build", dt |-> dt, how |-> HN(rs, 4, 6), format |-> Format, links |-> links, joints |-> joints, root |-> r,
                       tree |-> [ i \in 1..Len(tree) |->
                                   [tree[i] EXCEPT !.lo = IF @ = <<>> THEN <<>> ELSE Flat(@[1]),
                                                   !.jo = IF @ = <<>> THEN <<>> ELSE Flat(@[1])] ]])
         /\ phase' = "run" /\ rs' = RsNext(rs)
         /\ UNCHANGED << target, tree, bd, left >>

\* expected poses of the frames of a chain, in the chain's own frame order
Exp(t, cfg) == LET w == World(t, cfg) IN [ i \in 1..Len(t) |-> Flat(w[i]) ]

Fk(c) ==
  \E cfgs \in CfgsChoice(1000), form \in Pick(Forms, rs, 2), lay \in Pick(Layouts, rs, 3), sub \in Either({0}, HN(rs, 4, 3)) :
    LET t == chains[c].tree
    IN /\ Emit([op |-> "fk", ch |-> c, cfgs |-> cfgs, form |-> form, lay |-> lay, sub |-> sub, subsel |-> HN(rs, 5, 1000),
                ids |-> [ i \in 1..Len(t) |-> t[i].id ],
                exp |-> [ i \in 1..Len(cfgs) |-> Exp(t, cfgs[i]) ]])
       /\ UNCHANGED chains

\* motion of a single frame: joint offset, then the joint
FrameTf(c) ==
  \E cfgs \in CfgsChoice(1000) :
    LET t == chains[c].tree
    IN /\ Emit([op |-> "frame", ch |-> c, cfgs |-> cfgs, ids |-> [ i \in 1..Len(t) |-> t[i].id ],
                exp |-> [ i \in 1..Len(cfgs) |->
                          [ j \in 1..Len(t) |-> Flat(PMul(Opt(t[j].jo), Motion(t[j], cfgs[i]))) ] ]])
       /\ UNCHANGED chains

Extraction(c) ==
  LET t == chains[c].tree
  IN \E e \in Either(1..Len(t), LET h == 1 + HN(rs, 6, Len(t)) IN IF Chance(50, rs, 7) THEN Len(t) ELSE h) :
     \E r \in Either(Range(PathTo(t, e)), LET p == PathTo(t, e) IN IF Chance(50, rs, 8) THEN 1 ELSE p[1 + HN(rs, 9, Len(p))]) :
       LET x == Extract(t, r, e)
       IN /\ chains' = Append(chains, [tree |-> x, serial |-> TRUE, dt |-> chains[c].dt, pr |-> chains[c].pr])
          /\ Emit([op |-> "extract", ch |-> c, root |-> t[r].id, end |-> t[e].id,
                   implicit |-> (r = 1 /\ HN(rs, 10, 2) = 0),
                   ids |-> [ i \in 1..Len(x) |-> x[i].id ],
                   joints |-> SelectSeq([ i \in 1..Len(x) |-> IF x[i].jt = "F" THEN 0 ELSE x[i].id ], LAMBDA z : z # 0)])

To(c) == \E dt \in Pick(Dtypes, rs, 2) :
           /\ chains' = [chains EXCEPT ![c].dt = dt, ![c].pr = IF dt = "f32" THEN dt ELSE @]
           /\ Emit([op |-> "to", ch |-> c, dt |-> dt, pr |-> chains'[c].pr])

\* expected Jacobian columns at the point p/k of the last frame: [id, lin (3), ld, ang (3), ad, |ax|^2]
Columns(t, cfg, p, k) ==
  LET w == World(t, cfg)  e == Len(t)
      col(j) == LET dw == DWorld(t, cfg, w, j)[e]
                    lin == Reduce([r |-> MZero, t |-> VAdd(MVec(dw.r, p), VScale(k, dw.t)), d |-> dw.d * k])
                    z == MVec(w[j].r, t[j].ax)
                IN << t[j].id >> \o lin.t \o << lin.d >>
                   \o (IF t[j].jt = "R" THEN z \o << w[j].d >> ELSE << 0, 0, 0, 1 >>) \o << NormSq(t[j].ax) >>
  IN [ j \in 1..Len(t) |-> IF t[j].jt = "F" THEN <<>> ELSE col(j) ]
\* a tool point per configuration (or one for all, or none)
ToolPoint(x) == IF x = <<>> THEN <<0,0,0>> ELSE x[1]
ToolDen(x) == IF x = <<>> THEN 1 ELSE x[2]
ToolsChoice(n) == IF Exhaustive THEN { << x >> : x \in Range(Tools) }
                  ELSE { LET one == Chance(60, rs, 31)
                             x == HPick(Tools, rs, 32)
                         IN [ i \in 1..n |-> IF one THEN x ELSE HPick(Tail(Tools), rs, 32 + i) ] }
Jac(c) ==
  /\ chains[c].serial
  /\ \E cfgs \in CfgsChoice(1000) : \E tools \in ToolsChoice(Len(cfgs)) :
       LET t == chains[c].tree
       IN Emit([op |-> "jac", ch |-> c, cfgs |-> cfgs, tools |-> tools, call |-> HN(rs, 6, 60), lay |-> HPick(Layouts, rs, 3),
                form |-> HPick(<< "t2", "t1", "n2", "n1", "list", "t2_grad", "t2_strided", "dict_f", "dict_t1", "dict_c1" >>, rs, 8),
                cols |-> [ i \in 1..Len(cfgs) |->
                            SelectSeq(Columns(t, cfgs[i], ToolPoint(tools[i]), ToolDen(tools[i])), LAMBDA x : x # <<>>) ],
                pose |-> [ i \in 1..Len(cfgs) |-> Flat(PMul(World(t, cfgs[i])[Len(t)], PTrans(ToolPoint(tools[i]), ToolDen(tools[i])))) ]])
  /\ UNCHANGED chains

Weights(k) == [ i \in 1..12 |-> HN(rs, k + i, 7) - 3 ]
\* for each selected frame and each moving joint the weighted derivative over its denominator
GradOf(t, cfg, sel, ws) ==
  LET w == World(t, cfg)
  IN [ j \in 1..Len(t) |->
        IF t[j].jt = "F" THEN <<>>
        ELSE LET dw == DWorld(t, cfg, w, j)
             IN << t[j].id, NormSq(t[j].ax),
                   [ s \in 1..Len(sel) |-> << Weighted(ws[s], dw[sel[s]]), dw[sel[s]].d >> ] >> ]
Grad(c) ==
  \E cfgs \in CfgsChoice(1000) :
    LET t == chains[c].tree
        sel == IF Exhaustive THEN << Len(t) >> ELSE [ s \in 1..(1 + HN(rs, 7, 3)) |-> 1 + HN(rs, 10 + s, Len(t)) ]
        ws == [ s \in 1..Len(sel) |-> IF Exhaustive THEN <<1,2,3,4,5,6,7,8,9,10,11,12>> ELSE Weights(50 + 20 * s) ]
    IN /\ Emit([op |-> "grad", ch |-> c, cfgs |-> cfgs, mode |-> HN(rs, 6, 3), lay |-> HPick(Layouts, rs, 3),
                sel |-> [ s \in 1..Len(sel) |-> t[sel[s]].id ], ws |-> ws,
                exp |-> [ i \in 1..Len(cfgs) |-> SelectSeq(GradOf(t, cfgs[i], sel, ws), LAMBDA x : x # <<>>) ]])
       /\ UNCHANGED chains

\* second derivatives: of a weighted sum of pose entries by pairs of joints, << id, id, |ax|^2, |ax|^2, terms >>
HessOf(t, cfg, sel, ws) ==
  LET w == World(t, cfg)
      d == [ j \in 1..Len(t) |-> IF t[j].jt = "F" THEN <<>> ELSE DWorld(t, cfg, w, j) ]
      ms == SelectSeq([ j \in 1..Len(t) |-> IF t[j].jt = "F" THEN 0 ELSE j ], LAMBDA j : j # 0)
      pair(j, k) == LET dd == D2World(t, cfg, w, j, k, d[j], d[k])
                    IN << t[j].id, t[k].id, NormSq(t[j].ax), NormSq(t[k].ax),
                          [ s \in 1..Len(sel) |-> << Weighted(ws[s], dd[sel[s]]), dd[sel[s]].d >> ] >>
  IN [ a \in 1..Len(ms) |-> [ b \in 1..a |-> pair(ms[a], ms[b]) ] ]
FewCfgs(k) == IF Exhaustive THEN CfgsChoice(k) ELSE { [ i \in 1..Min2(2, Len(cs)) |-> cs[i] ] : cs \in CfgsChoice(k) }
Hess(c) ==
  \E cfgs \in FewCfgs(1000) :
    LET t == chains[c].tree
        sel == IF Exhaustive THEN << Len(t) >> ELSE [ s \in 1..(1 + HN(rs, 7, 2)) |-> 1 + HN(rs, 10 + s, Len(t)) ]
        ws == [ s \in 1..Len(sel) |-> IF Exhaustive THEN <<1,2,3,4,5,6,7,8,9,10,11,12>> ELSE Weights(50 + 20 * s) ]
    IN /\ Emit([op |-> "hess", ch |-> c, cfgs |-> cfgs, mode |-> HN(rs, 6, 6), lay |-> HPick(SmallLayouts, rs, 3),
                sel |-> [ s \in 1..Len(sel) |-> t[sel[s]].id ], ws |-> ws,
                exp |-> [ i \in 1..Len(cfgs) |-> HessOf(t, cfgs[i], sel, ws) ]])
       /\ UNCHANGED chains

\* derivative of a weighted sum of Jacobian entries (weights by column): << id, |ax|^2, << terms: linear, over, angular, over, |ax|^2 of the column >> >>
JacGradOf(t, cfg, p, q, ws) ==
  LET w == World(t, cfg)
      e == Len(t)
      d == [ j \in 1..Len(t) |-> IF t[j].jt = "F" THEN <<>> ELSE DWorld(t, cfg, w, j) ]
      ms == SelectSeq([ j \in 1..Len(t) |-> IF t[j].jt = "F" THEN 0 ELSE j ], LAMBDA j : j # 0)
      term(j, k) == LET dd == D2World(t, cfg, w, j, k, d[j], d[k])[e]
                        z == IF t[j].jt = "R" THEN MVec(d[k][j].r, t[j].ax) ELSE <<0,0,0>>
                        x == Reduce([r |-> MZero, t |-> VAdd(MVec(dd.r, p), VScale(q, dd.t)), d |-> dd.d * q])
                    IN << Dot(SubSeq(ws[j], 1, 3), x.t), x.d, Dot(SubSeq(ws[j], 4, 6), z), d[k][j].d, NormSq(t[j].ax) >>
  IN [ a \in 1..Len(ms) |-> << t[ms[a]].id, NormSq(t[ms[a]].ax), [ b \in 1..Len(ms) |-> term(ms[b], ms[a]) ] >> ]
JacGrad(c) ==
  /\ \E cfgs \in FewCfgs(1000) : \E tools \in ToolsChoice(Len(cfgs)) :
       LET t == chains[c].tree
           ws == [ j \in 1..Len(t) |-> [ i \in 1..6 |-> IF Exhaustive THEN i ELSE HN(rs, 100 + 10 * j + i, 7) - 3 ] ]
       IN Emit([op |-> "jacgrad", ch |-> c, cfgs |-> cfgs, tools |-> tools, call |-> HN(rs, 6, 60), lay |-> HPick(SmallLayouts, rs, 3),
                ws |-> [ j \in 1..Len(t) |-> << t[j].id >> \o ws[j] ],
                exp |-> [ i \in 1..Len(cfgs) |-> JacGradOf(t, cfgs[i], ToolPoint(tools[i]), ToolDen(tools[i]), ws) ]])
  /\ UNCHANGED chains

\* derivative by an entry-wise change of one offset of the robot that was built
Directions == << <<0,0,0,0,0,0,0,0,0,1,2,3>>, <<1,2,3,4,5,6,7,8,9,0,0,0>> >>
Param(c) ==
  \E cfgs \in FewCfgs(1000) : \E o \in Either(1..Len(tree), 1 + HN(rs, 5, Len(tree))) : \E which \in Either({ "lo", "jo" }, HPick(<< "lo", "jo" >>, rs, 6)) :
    \E dir \in Either(Range(Directions), Weights(30)) :
      LET t == tree
          sel == IF Exhaustive THEN << Len(t) >> ELSE [ s \in 1..(1 + HN(rs, 7, 3)) |-> 1 + HN(rs, 10 + s, Len(t)) ]
          ws == [ s \in 1..Len(sel) |-> IF Exhaustive THEN <<1,2,3,4,5,6,7,8,9,10,11,12>> ELSE Weights(50 + 20 * s) ]
          dp == [r |-> SubSeq(dir, 1, 9), t |-> SubSeq(dir, 10, 12), d |-> 1]
          of(cfg) == LET dd == DOffset(t, cfg, World(t, cfg), o, which, dp)
                     IN [ s \in 1..Len(sel) |-> << Weighted(ws[s], dd[sel[s]]), dd[sel[s]].d >> ]
      IN /\ Emit([op |-> "param", ch |-> 1, cfgs |-> cfgs, frame |-> t[o].id, which |-> which, dir |-> dir, mode |-> HN(rs, 8, 6),
                  dt |-> HPick(<< "f64", "f32" >>, rs, 9), sel |-> [ s \in 1..Len(sel) |-> t[sel[s]].id ], ws |-> ws,
                  exp |-> [ i \in 1..Len(cfgs) |-> of(cfgs[i]) ]])
         /\ UNCHANGED chains

\* limits of the moving joints: [id, lim, vlim, elim]
Limits(c) ==
  LET t == chains[c].tree
  IN /\ Emit([op |-> "limits", ch |-> c,
              exp |-> [ id \in { t[i].id : i \in Moving(t) } |->
                          LET f == t[ById(t, id)] IN << f.lim, f.vlim, f.elim >> ],
              ids |-> SelectSeq([ i \in 1..Len(t) |-> IF t[i].jt = "F" THEN 0 ELSE t[i].id ], LAMBDA z : z # 0)])
     /\ UNCHANGED chains

ClampVals == SeqOf(-30, 30)
Far == << 9001, -8003, 30000, -30001, 500000, -777777, 123, -99 >>
Clamp(c) ==
  LET t == chains[c].tree
      mv == SelectSeq([ i \in 1..Len(t) |-> IF t[i].jt = "F" THEN 0 ELSE i ], LAMBDA z : z # 0)
  IN \E rows \in Either({ << [ i \in 1..Len(mv) |-> v ] >> : v \in { -9, -4, 0, 8, 9 } },
                        [ r \in 1..(1 + HN(rs, 5, 4)) |-> [ i \in 1..Len(mv) |-> IF Chance(20, rs, 100 * r + i + 50) THEN HPick(Far, rs, 100 * r + i) ELSE HPick(ClampVals, rs, 100 * r + i) ] ]) :
       /\ Emit([op |-> "clamp", ch |-> c, ids |-> [ i \in 1..Len(mv) |-> t[mv[i]].id ], rows |-> rows,
                form |-> HPick(Forms, rs, 2),
                exp |-> [ r \in 1..Len(rows) |-> [ i \in 1..Len(mv) |-> ClampTo(t[mv[i]].lim, rows[r][i]) ] ]])
       /\ UNCHANGED chains

\* everything structural about a chain
Struct(c) ==
  LET t == chains[c].tree
  IN /\ Emit([op |-> "struct", ch |-> c, ord |-> HN(rs, 5, 6),
              frames |-> [ i \in 1..Len(t) |->
                 << t[i].id, t[i].jt, IF t[i].par = 0 THEN 0 ELSE t[t[i].par].id,
                    [ k \in 1..Len(Kids(t, i)) |-> t[Kids(t, i)[k]].id ],
                    [ k \in 1..Len(t) |-> IF IsAncestor(t, i, k) THEN t[k].id ELSE 0 ],
                    Shapes(t[i].doc) >> ],
              dfs |-> [ i \in 1..Len(t) |-> t[Dfs(t)[i]].id ]])
     /\ UNCHANGED chains

\* an unusable configuration or name: rejected, nothing changes
Bad(c) ==
  /\ \E kind \in Pick(<< "missing", "unknown", "missing_unknown", "short", "long", "short_n", "short_list", "long_list", "end", "root", "missing_t1" >>, rs, 2) :
       Emit([op |-> "bad", ch |-> c, kind |-> kind, which |-> HN(rs, 3, 100),
             cfg |-> IF Exhaustive THEN <<>> ELSE GenCfg(1100)])
  /\ UNCHANGED chains

\* a variant of the file that cannot be loaded: a body with several joints, an unknown end, a kind of joint that is not supported
BadDoc(c) ==
  /\ \E kind \in Pick(<< "joints", "joints", "end", "type" >>, rs, 2) : Emit([op |-> "baddoc", ch |-> c, kind |-> kind, which |-> HN(rs, 3, 1000)])
  /\ UNCHANGED chains

\* ask an earlier question again
Again(c) ==
  /\ \E i \in IF Exhaustive THEN {} ELSE { 1 + HN(rs, 2, Len(log)) } :
       Emit([op |-> "again", ev |-> i])
  /\ UNCHANGED chains

---------------------------------------------------------------------------
(* inverse kinematics: problems (target poses) and retries (starting configurations) *)
\* what takes the orientation and the position of pose w to those of pose g: rotation in the base frame, difference of positions
Error(g, w) == Reduce([r |-> MMul(g.r, MT(w.r)), t |-> VSub(VScale(w.d, g.t), VScale(g.d, w.t)), d |-> g.d * w.d])
Ends(t, cfgs) == [ i \in 1..Len(cfgs) |-> World(t, cfgs[i])[Len(t)] ]
Anywhere(k) == PMake(HPick(Quats, rs, k), GenTrans(k + 1), HPick(Dens, rs, k + 5))
GenTarget(t, ends, k) ==
  LET h == HN(rs, k, 10)  w == ends[1 + HN(rs, k + 1, Len(ends))] IN
  CASE h < 4 -> World(t, GenCfg(k + 50))[Len(t)]
    [] h < 5 -> w
    [] h < 6 -> [w EXCEPT !.t = VAdd(@, VScale(w.d, GenTrans(k + 2)))]
    [] h < 8 -> PMul([w EXCEPT !.r = MScale(w.d, MId)], PMul(PRot(HPick(OctQuats, rs, k + 2)), [w EXCEPT !.t = <<0,0,0>>]))
    [] OTHER -> Anywhere(k + 3)
IkProblem(c, name) ==
  LET t == chains[c].tree
      np == IF Exhaustive THEN 1 ELSE 1 + HN(rs, 2, 4)
      nr == IF Exhaustive THEN 1 ELSE 1 + HN(rs, 3, 4)
      share == Exhaustive \/ Chance(50, rs, 4)
      k == IF share THEN nr ELSE np * nr
  IN \E starts \in Either({ << x >> : x \in ExhCfgs(tree) }, [ i \in 1..k |-> GenCfg(2000 + 100 * i) ]) :
       LET ends == Ends(t, starts)
       IN \E targets \in Either({ << x >> : x \in { ends[1], PMake(<<1,0,0,1>>, <<1,0,-1>>, 1), PMake(<<0,1,1,0>>, <<0,2,0>>, 1) } },
                              [ p \in 1..np |-> GenTarget(t, ends, 5000 + 500 * p) ]) :
            Emit([op |-> name, ch |-> c, np |-> np, nr |-> nr, share |-> share, starts |-> starts,
                  targets |-> [ p \in 1..np |-> Flat(targets[p]) ],
                  cols |-> IF name # "ikstep" THEN <<>>
                           ELSE [ i \in 1..k |-> SelectSeq(Columns(t, starts[i], <<0,0,0>>, 1), LAMBDA x : x # <<>>) ],
                  errs |-> [ p \in 1..np |-> [ r \in 1..nr |-> Flat(Error(targets[p], ends[IF share THEN r ELSE (p - 1) * nr + r])) ] ]])
Ik(c, name) == /\ IkProblem(c, name) /\ UNCHANGED chains

Op(name, c) ==
  CASE name = "fk" -> Fk(c)
    [] name = "frame" -> FrameTf(c)
    [] name = "extract" -> Extraction(c)
    [] name = "to" -> To(c)
    [] name = "jac" -> IF chains[c].serial THEN Jac(c) ELSE Extraction(c)
    [] name = "grad" -> Grad(c)
    [] name = "hess" -> Hess(c)
    [] name = "param" -> IF Format = "api" THEN Param(c) ELSE Hess(c)
    [] name = "jacgrad" -> IF chains[c].serial THEN JacGrad(c) ELSE Extraction(c)
    [] name = "limits" -> Limits(c)
    [] name = "clamp" -> Clamp(c)
    [] name = "struct" -> Struct(c)
    [] name = "bad" -> Bad(c)
    [] name = "again" -> Again(c)
    [] name = "baddoc" -> BadDoc(c)
    [] name \in { "ikstep", "iksolve" } -> IF chains[c].serial /\ Moving(chains[c].tree) # {} THEN Ik(c, name) ELSE Extraction(c)

Run == /\ phase = "run" /\ left > 0
       /\ \E name \in Pick(OpMix, rs, 71) :
          \E c \in Either(1..Len(chains), IF Chance(60, rs, 72) THEN Len(chains) ELSE 1 + HN(rs, 73, Len(chains))) :
            Op(name, c)
       /\ left' = left - 1 /\ rs' = RsNext(rs)
       /\ UNCHANGED << phase, target, tree, bd >>

Finish == /\ phase = "run" /\ left = 0
          /\ phase' = "done"
          /\ IF Exhaustive THEN TRUE ELSE PrintT("@@" \o ToJson(log))
          /\ UNCHANGED << rs, target, tree, bd, chains, log, left >>

Next == Grow \/ Build \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* what must hold in every reachable state *)
Last == log[Len(log)]
IsOp(name) == log # <<>> /\ Last.op = name

TypeOK == /\ phase \in { "grow", "run", "done" }
          /\ \A i \in 1..Len(tree) : tree[i].par < i /\ (tree[i].par = 0 <=> i = 1)

\* parents come before children, every frame is listed once, in either order
OrderOK == \A c \in 1..Len(chains) :
             LET t == chains[c].tree  d == Dfs(t)
             IN /\ Len(d) = Len(t) /\ Range(d) = 1..Len(t)
                /\ \A i \in 1..Len(d) : \A k \in 1..Len(d) : t[d[k]].par = d[i] => i < k

\* poses are rigid motions, equal the product along the path, and serial poses are relative poses in the original tree
PoseOK == IsOp("fk") =>
            LET t == chains[Last.ch].tree
            IN \A i \in 1..Len(Last.cfgs) :
                 LET cfg == Last.cfgs[i]  w == World(t, cfg)
                 IN /\ \A f \in 1..Len(t) : PRigid(w[f]) /\ PEq(w[f], ProductAlong(t, PathTo(t, f), cfg))
                    /\ chains[Last.ch].serial =>
                         LET o == World(tree, cfg)
                         IN \A f \in 1..Len(t) :
                              PEq(w[f], PMul(PInv(o[t[1].id]), o[t[f].id]))

\* a serial chain is a path of the original tree and keeps exactly the joints below its root
PathOK == \A c \in 1..Len(chains) :
            chains[c].serial =>
              LET t == chains[c].tree
              IN /\ t[1].jt = "F" /\ \A i \in 2..Len(t) : t[i].par = i - 1 /\ tree[t[i].id].par = t[i-1].id /\ t[i].jt = tree[t[i].id].jt
                 /\ \A i \in 1..Len(t) : t[i].id \in 1..Len(tree)

\* the geometric Jacobian formula is the derivative of the pose
JacobianOK == IsOp("jac") =>
  LET t == chains[Last.ch].tree  e == Len(t)
  IN \A i \in 1..Len(Last.cfgs) :
       LET w == World(t, Last.cfgs[i])
           p == ToolPoint(Last.tools[i])
           k == ToolDen(Last.tools[i])
       IN \A j \in Moving(t) :
            LET dw == DWorld(t, Last.cfgs[i], w, j)[e]
                g == GeoColumn(t, w, j, e, p, k)
            IN /\ RVEq(VAdd(MVec(dw.r, p), VScale(k, dw.t)), dw.d * k, g.lin, g.ld)
               /\ RMEq(dw.r, dw.d, MMul(Hat(g.ang), w[e].r), g.ad * w[e].d)

\* joints that are not above a frame do not move it; gradients add up from Jacobian columns
GradOK == IsOp("grad") =>
  LET t == chains[Last.ch].tree
  IN \A i \in 1..Len(Last.cfgs) :
       LET w == World(t, Last.cfgs[i])
       IN \A j \in Moving(t) : \A f \in 1..Len(t) :
            LET dw == DWorld(t, Last.cfgs[i], w, j)[f]
            IN IF ~IsAncestor(t, j, f) THEN dw = DZero
               ELSE LET g == GeoColumn(t, w, j, f, <<0,0,0>>, 1)
                    IN RVEq(dw.t, dw.d, g.lin, g.ld) /\ RMEq(dw.r, dw.d, MMul(Hat(g.ang), w[f].r), g.ad * w[f].d)

\* second derivatives are symmetric and follow from the geometric Jacobian: moving joint k turns and shifts the axes and points below it
JacGradOK == IsOp("jacgrad") =>
  LET t == chains[Last.ch].tree  e == Len(t)
  IN \A i \in 1..Len(Last.cfgs) :
       LET cfg == Last.cfgs[i]
           w == World(t, cfg)
           p == ToolPoint(Last.tools[i])
           q == ToolDen(Last.tools[i])
           d == [ j \in 1..Len(t) |-> IF t[j].jt = "F" THEN <<>> ELSE DWorld(t, cfg, w, j) ]
       IN \A j \in Moving(t), k \in Moving(t) :
            LET dd == D2World(t, cfg, w, j, k, d[j], d[k])[e]
                zj == MVec(w[j].r, t[j].ax)
                zk == MVec(w[k].r, t[k].ax)
                lin == VAdd(MVec(dd.r, p), VScale(q, dd.t))
                lk == VAdd(MVec(d[k][e].r, p), VScale(q, d[k][e].t))
            IN /\ dd = D2World(t, cfg, w, k, j, d[k], d[j])[e]
               /\ j <= k => IF t[j].jt = "R" THEN RVEq(lin, dd.d * q, Cross(zj, lk), w[j].d * d[k][e].d * q) ELSE lin = <<0,0,0>>
               /\ t[j].jt = "R" => IF k < j /\ t[k].jt = "R" THEN RVEq(MVec(d[k][j].r, t[j].ax), d[k][j].d, Cross(zk, zj), w[k].d * w[j].d)
                                  ELSE MVec(d[k][j].r, t[j].ax) = <<0,0,0>>
\* a change of an offset moves what is below it; the translation of a link offset moves everything below it by the same vector
ParamOK == IsOp("param") =>
  \A i \in 1..Len(Last.cfgs) :
    LET cfg == Last.cfgs[i]
        w == World(tree, cfg)
        o == Last.frame
        dir == [r |-> SubSeq(Last.dir, 1, 9), t |-> SubSeq(Last.dir, 10, 12), d |-> 1]
        dd == DOffset(tree, cfg, w, o, Last.which, dir)
        pw == IF tree[o].par = 0 THEN PId ELSE w[tree[o].par]
    IN \A f \in 1..Len(tree) :
         IF ~IsAncestor(tree, o, f) THEN dd[f] = DZero
         ELSE dir.r = MZero /\ Last.which = "lo" => dd[f].r = MZero /\ RVEq(dd[f].t, dd[f].d, MVec(pw.r, dir.t), pw.d)

\* clamping is idempotent, keeps what is inside, and lands inside
ClampOK == IsOp("clamp") =>
  LET t == chains[Last.ch].tree
  IN \A r \in 1..Len(Last.rows) : \A i \in 1..Len(Last.ids) :
       LET lim == t[ById(t, Last.ids[i])].lim  v == Last.rows[r][i]  x == Last.exp[r][i]
       IN /\ ClampTo(lim, x) = x
          /\ lim # <<>> => lim[1] <= x /\ x <= lim[2] /\ (lim[1] <= v /\ v <= lim[2] => x = v)
          /\ lim = <<>> => x = v

\* reading the elements in any order gives the robot that was described; SDF links are where the file says
ReadOK == IsOp("build") =>
            LET t == chains[1].tree
                zero == [ i \in 1..Len(tree) |-> IF tree[i].jt = "R" THEN <<1,0,0>> ELSE IF tree[i].jt = "P" THEN <<0,1>> ELSE <<>> ]
            IN /\ { t[i].id : i \in 1..Len(t) } = { tree[i].id : i \in Below(tree, Last.root) }
               /\ \A i \in 2..Len(t) :
                    /\ tree[t[i].id].par = t[t[i].par].id /\ t[i].par < i
                    /\ [t[i] EXCEPT !.par = 0] = [tree[t[i].id] EXCEPT !.par = 0]
               /\ Format = "sdf" => \A i \in 1..Len(t) : PEq(World(t, zero)[i], RpyPose(t[i].doc))

UnFlat(f) == [r |-> SubSeq(f, 1, 9), t |-> SubSeq(f, 10, 12), d |-> f[13]]
\* turning and shifting the current pose by its error gives the target; the error is a rotation
ErrorOK == (IsOp("ikstep") \/ IsOp("iksolve")) =>
  LET t == chains[Last.ch].tree
  IN \A p \in 1..Last.np, r \in 1..Last.nr :
       LET w == World(t, Last.starts[IF Last.share THEN r ELSE (p - 1) * Last.nr + r])[Len(t)]
           g == UnFlat(Last.targets[p])
           e == UnFlat(Last.errs[p][r])
       IN /\ PRigid([e EXCEPT !.t = <<0,0,0>>])
          /\ RMEq(MMul(e.r, w.r), e.d * w.d, g.r, g.d)
          /\ RVEq(VAdd(VScale(w.d, e.t), VScale(e.d, w.t)), e.d * w.d, g.t, g.d)

Safety == JacGradOK /\ ParamOK /\ ErrorOK /\ ReadOK /\ TypeOK /\ OrderOK /\ PoseOK /\ PathOK /\ JacobianOK /\ GradOK /\ ClampOK

\* queries never change chains; extraction only adds one; a move only changes the precision of the chain moved
Frozen == [][ /\ Len(chains') >= Len(chains)
              /\ \A c \in 1..Len(chains) :
                   /\ chains'[c].tree = chains[c].tree /\ chains'[c].serial = chains[c].serial
                   /\ chains'[c].pr # chains[c].pr => chains'[c].pr = chains'[c].dt
                   /\ chains'[c].dt # chains[c].dt => (IsOp("to")' /\ log'[Len(log')].ch = c) ]_vars
=============================================================================
