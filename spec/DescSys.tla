------------------------------ MODULE DescSys ------------------------------
(***************************************************************************)
(* A program reads robot descriptions, edits and writes them, and asks for *)
(* their structure.                                                        *)
(***************************************************************************)
EXTENDS Desc, Choice, Json

CONSTANTS NumOps, OpMix, MaxLinks

VARIABLES rs, robot, probe, log, left
vars == << rs, robot, probe, log, left >>

Sub(s, i) == << H(s, i), H(s, i + 20011) >>
Names0 == << "nlink", "njoint" >>
LName(i) == Str(1000 + i)
JName(i) == Str(2000 + i)

---------------------------------------------------------------------------
(* generating documents *)
GenLex(ty, s) ==
  CASE ty = "str" -> Str(1 + HN(s, 1, 40))
    [] ty = "float" -> Num(HN(s, 1, 40))
    [] ty = "bool" -> <<"b", HN(s, 1, 2) = 0>>
    [] OTHER -> <<"v", [ i \in 1..Size(ty) |-> HN(s, 1 + i, 40) ]>>
GenType(s) == Con(HPick(<< "fixed", "revolute", "revolute", "prismatic", "continuous", "floating", "planar", "unknown" >>, s, 7))
RawNode(s) == Node(HPick(<<"a", "b", "link">>, s, 1), IF Chance(50, s, 2) THEN << <<"x", Num(HN(s, 3, 40))>> >> ELSE <<>>, <<>>,
                   IF Chance(40, s, 4) THEN Str(1 + HN(s, 5, 40)) ELSE None)
RECURSIVE GenObj(_, _, _, _), GenNodeOf(_, _, _, _)
GenObj(cls, tag, s, p) ==   \* p: how likely optional parts are, in percent
  LET sc == Schema(cls)
      at(i) == IF sc[i][1] = "attr" /\ (sc[i][4] \/ Chance(p, s, 100 + i))
               THEN << << sc[i][2], IF cls = "Joint" /\ sc[i][2] = "type" THEN GenType(s) ELSE GenLex(sc[i][3], Sub(s, i)) >> >> ELSE <<>>
      many(i) == IF cls = "Robot" THEN HN(s, 200 + i, 3)
                 ELSE IF cls \in {"Transmission", "TransmissionJoint"} THEN 1 + HN(s, 200 + i, 2)
                 ELSE IF Chance(p, s, 200 + i) THEN 1 + HN(s, 250 + i, 2) ELSE 0
      kid(i) == IF sc[i][1] = "elem" /\ (sc[i][4] \/ Chance(p, s, 150 + i)) THEN << GenNodeOf(sc[i][2], sc[i][3], Sub(s, 300 + i), p) >>
                ELSE IF sc[i][1] = "agg" THEN [ k \in 1..many(i) |-> GenNodeOf(sc[i][2], sc[i][3], Sub(s, 400 + 10 * i + k), p) ] ELSE <<>>
      RECURSIVE Cat(_, _)
      Cat(f(_), i) == IF i = 0 THEN <<>> ELSE Cat(f, i - 1) \o f(i)
  IN Node(tag, Cat(at, Len(sc)), Cat(kid, Len(sc)), None)
GenNodeOf(tag, ty, s, p) ==
  IF ty \in Basic THEN Node(tag, <<>>, <<>>, GenLex(ty, Sub(s, 1)))
  ELSE IF ty \in Simple THEN Node(tag, << << SimpleAttr(ty)[1], GenLex(SimpleAttr(ty)[2], Sub(s, 1)) >> >>, <<>>, None)
  ELSE IF ty = "raw" THEN Node(tag, << <<"reference", Str(1 + HN(s, 1, 9))>> >>, [ i \in 1..(1 + HN(s, 2, 2)) |-> RawNode(Sub(s, 2 + i)) ], None)
  ELSE IF ty \in { "geometric", "sgeometric" }
  THEN LET sh == HPick(Shapes(ty), s, 1) IN Node(tag, <<>>, << GenObj(sh[2], sh[1], Sub(s, 2), p) >>, None)
  ELSE IF ty = "transmission" THEN GenObj(IF Chance(60, s, 1) THEN "Transmission" ELSE "PR2Transmission", tag, Sub(s, 2), p)
  ELSE GenObj(ty, tag, s, p)

\* interleave two sequences in some way
RECURSIVE Mix(_, _, _)
Mix(a, b, s) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                ELSE IF HN(s, Len(a) * 31 + Len(b), 2) = 0 THEN << Head(a) >> \o Mix(Tail(a), b, s) ELSE << Head(b) >> \o Mix(a, Tail(b), s)
SetAt(node, name, v) == [node EXCEPT !.at = [ i \in 1..Len(@) |-> IF @[i][1] = name THEN << name, v >> ELSE @[i] ]]
SetKid(node, tag, k) == [node EXCEPT !.kids = [ i \in 1..Len(@) |-> IF @[i].tag = tag THEN k ELSE @[i] ]]
SimpleNode(tag, name, v) == Node(tag, << << name, v >> >>, <<>>, None)
\* a robot whose joints connect its links, mostly as a tree
GenLink(i, s, p) == SetAt(GenObj("Link", "link", s, p), "name", LName(i))
JointBetween(node, i, a, b) == SetAt(SetKid(SetKid(node, "parent", SimpleNode("parent", "link", LName(a))), "child", SimpleNode("child", "link", LName(b))), "name", JName(i))
GenJoint(i, a, b, s, p) == JointBetween(GenObj("Joint", "joint", s, p), i, a, b)
GenRobot(s) ==
  LET p == HPick(<< 10, 30, 60 >>, s, 1)
      n == 1 + HN(s, 2, MaxLinks)
      links == [ i \in 1..n |-> GenLink(i, Sub(s, 10 + i), p) ]
      parent(i) == IF Chance(4, s, 40 + i) THEN 1 + HN(s, 60 + i, n + 1) ELSE 1 + HN(s, 80 + i, i - 1)
      joints == [ i \in 1..(n - 1) |-> GenJoint(i + 1, parent(i + 1), i + 1, Sub(s, 100 + i), p) ]
      flip == [ i \in 1..(n - 1) |-> joints[n - i] ]
      some == IF Chance(6, s, 3) /\ n > 1 THEN Tail(joints) ELSE IF Chance(40, s, 4) THEN flip ELSE joints
      rest == GenObj("Robot", "robot", Sub(s, 5), p)
      others == SelectSeq(rest.kids, LAMBDA k : k.tag \notin { "link", "joint" })
  IN [rest EXCEPT !.kids = Mix(Mix(links, some, Sub(s, 6)), others, Sub(s, 7))]

\* one change somewhere in a document
Odd(v, s) == IF v = None THEN Num(3) ELSE CASE v[1] \in { "n", "b" } -> Con("odd")
               [] v[1] = "v" -> <<"v", IF HN(s, 1, 2) = 0 THEN Tail(v[2]) ELSE v[2] \o << 5 >>>>
               [] OTHER -> Con("odd")
DropIx(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RECURSIVE Mutate(_, _)
Mutate(node, s) ==
  IF node.kids # <<>> /\ Chance(70, s, 1)
  THEN LET i == 1 + HN(s, 2, Len(node.kids)) IN [node EXCEPT !.kids[i] = Mutate(@, Sub(s, 3))]
  ELSE LET ka == 1 + HN(s, 4, Len(node.at) + 1) - 1  kk == 1 + HN(s, 5, Len(node.kids) + 1) - 1  h == HN(s, 6, 8)
       IN CASE h \in {0, 1} /\ ka > 0 -> [node EXCEPT !.at = DropIx(@, ka)]
            [] h = 2 /\ ka > 0 -> [node EXCEPT !.at[ka] = << @[1], Odd(@[2], Sub(s, 7)) >>]
            [] h = 3 -> [node EXCEPT !.at = @ \o << << "unheard", Num(1) >> >>]
            [] h = 4 /\ kk > 0 -> [node EXCEPT !.kids = DropIx(@, kk)]
            [] h = 5 /\ kk > 0 -> [node EXCEPT !.kids = @ \o << @[kk] >>]
            [] h = 6 /\ kk > 0 -> [node EXCEPT !.kids = << Node("unheard", <<>>, <<>>, None) >> \o @]
            [] OTHER -> IF node.text # None THEN [node EXCEPT !.text = IF Chance(50, s, 8) THEN None ELSE Odd(@, Sub(s, 9))]
                        ELSE IF ka > 0 THEN [node EXCEPT !.at[ka] = << @[1], Odd(@[2], Sub(s, 7)) >>]
                        ELSE IF kk > 0 THEN [node EXCEPT !.kids = DropIx(@, kk)] ELSE node

---------------------------------------------------------------------------
(* exhaustive domain: every class with every choice of optional parts, the parts themselves minimal *)
RECURSIVE MinNode(_, _, _), MinObj(_, _, _)
MinLex(ty) == CASE ty = "str" -> Str(1) [] ty = "float" -> Num(2) [] ty = "bool" -> <<"b", TRUE>>
                [] OTHER -> <<"v", [ i \in 1..Size(ty) |-> i ]>>
MinNode(tag, ty, c) ==
  IF ty \in Basic THEN Node(tag, <<>>, <<>>, MinLex(ty))
  ELSE IF ty \in Simple THEN Node(tag, << << SimpleAttr(ty)[1], MinLex(SimpleAttr(ty)[2]) >> >>, <<>>, None)
  ELSE IF ty = "raw" THEN Node(tag, <<>>, <<>>, None)
  ELSE IF ty \in { "geometric", "sgeometric" } THEN Node(tag, <<>>, << MinObj(Shapes(ty)[1][2], Shapes(ty)[1][1], {}) >>, None)
  ELSE IF ty = "transmission" THEN MinObj("Transmission", tag, {})
  ELSE MinObj(ty, tag, {})
MinObj(cls, tag, opt) ==   \* opt: indices of the parameters present though optional
  LET sc == Schema(cls)
      use == SelectSeq([ i \in 1..Len(sc) |-> i ],
                       LAMBDA i : sc[i][4] \/ i \in opt \/ cls \in { "Transmission", "TransmissionJoint" })
      ats == SelectSeq(use, LAMBDA i : sc[i][1] = "attr")
      els == SelectSeq(use, LAMBDA i : sc[i][1] # "attr")
  IN Node(tag, [ k \in 1..Len(ats) |-> << sc[ats[k]][2], IF cls = "Joint" /\ sc[ats[k]][2] = "type" THEN Con("fixed") ELSE MinLex(sc[ats[k]][3]) >> ],
          [ k \in 1..Len(els) |-> MinNode(sc[els[k]][2], sc[els[k]][3], 0) ], None)
Optional(cls) == { i \in 1..Len(Schema(cls)) : ~Schema(cls)[i][4] }
ExhDocs == UNION { { << cls, MinObj(cls, Tag(cls), opt) >> : opt \in SUBSET Optional(cls) } : cls \in Range(UrdfClasses) \union Range(SdfClasses) }
\* and each of them with one required part missing or malformed
Broken(cls, node) == { [node EXCEPT !.at = DropIx(@, i)] : i \in { i \in 1..Len(node.at) : \E p \in Range(Schema(cls)) : p[1] = "attr" /\ p[2] = node.at[i][1] /\ p[4] } }
                     \union { [node EXCEPT !.kids = DropIx(@, i)] :
                              i \in { i \in 1..Len(node.kids) : \E p \in Range(Schema(cls)) : p[1] = "elem" /\ p[2] = node.kids[i].tag /\ p[4] } }

---------------------------------------------------------------------------
EmptyRobot == [cls |-> "Robot", vals |-> << << "name", None >> >>, agg |-> <<>>]
Emit(e) == log' = Append(log, e)
Init == rs \in RsInit /\ robot = EmptyRobot /\ probe = <<>> /\ log = <<>> /\ left = NumOps

\* read one class on its own
ReadOne ==
  \E d \in Either(ExhDocs, LET cls == HPick(UrdfClasses \o SdfClasses \o << "SDF", "sModel", "Joint", "Link", "sJoint" >>, rs, 1)
                               node == GenObj(cls, Tag(cls), Sub(rs, 2), HPick(<< 10, 50, 90 >>, rs, 3))
                           IN << cls, IF Chance(50, rs, 4) THEN Mutate(node, Sub(rs, 5)) ELSE node >>) :
    LET v == ReadObj(d[1], d[2])
    IN /\ Emit([op |-> "one", cls |-> d[1], doc |-> d[2], exp |-> v,
                out |-> IF IsBad(v) THEN Bad ELSE WriteObj(Tag(d[1]), v[2])])
       /\ probe' = d /\ UNCHANGED robot
\* read a whole robot
ReadRobot ==
  \E d \in Either({ MinObj("Robot", "robot", opt) : opt \in SUBSET Optional("Robot") },
                  LET r == GenRobot(Sub(rs, 2)) IN IF Chance(25, rs, 3) THEN Mutate(r, Sub(rs, 4)) ELSE r) :
    LET v == ReadObj("Robot", d)
    IN /\ Emit([op |-> "read", doc |-> d, exp |-> v])
       /\ robot' = IF IsBad(v) THEN robot ELSE v[2]
       /\ UNCHANGED probe
New == /\ robot' = EmptyRobot /\ Emit([op |-> "new"]) /\ UNCHANGED probe
Add(tag, v) == robot' = [robot EXCEPT !.agg = Append(@, << tag, v >>)]
AddLink ==
  /\ \E i \in Either(1..MaxLinks, 1 + HN(rs, 2, MaxLinks + 2)) :
       LET n == GenLink(i, Sub(rs, 3), 30)
           v == ReadObj("Link", IF Exhaustive THEN SetAt(MinObj("Link", "link", {}), "name", LName(i)) ELSE n)
       IN LName(i) \notin LinkNames(robot) /\ Add("link", v) /\ Emit([op |-> "add", tag |-> "link", obj |-> v, how |-> HN(rs, 5, 4)])
  /\ UNCHANGED probe
AddJoint ==
  /\ \E i \in Either(1..MaxLinks, 1 + HN(rs, 2, MaxLinks + 4)), a \in Either(1..MaxLinks, 1 + HN(rs, 3, MaxLinks + 2)),
        b \in Either(1..MaxLinks, 1 + HN(rs, 4, MaxLinks + 2)) :
       LET n == IF Exhaustive THEN JointBetween(MinObj("Joint", "joint", {}), i, a, b) ELSE GenJoint(i, a, b, Sub(rs, 6), 30)
           v == ReadObj("Joint", n)
       IN JName(i) \notin JointNames(robot) /\ Add("joint", v) /\ Emit([op |-> "add", tag |-> "joint", obj |-> v, how |-> HN(rs, 5, 4)])
  /\ UNCHANGED probe
\* change a part of a link or joint, in place
SetVar(o, var, v) == [o EXCEPT !.vals = [ i \in 1..Len(@) |-> IF @[i][1] = var THEN << var, v >> ELSE @[i] ]]
Edit ==
  /\ robot.agg # <<>>
  /\ \E i \in Either({}, 1 + HN(rs, 2, Len(robot.agg))) :
       LET tag == robot.agg[i][1]  o == robot.agg[i][2][2]
           sc == SelectSeq(Schema(o.cls), LAMBDA p : p[1] = "elem" /\ p[2] \notin { "parent", "child" })
           p == HPick(sc, rs, 3)
           v == IF Chance(25, rs, 4) THEN None ELSE ReadVal(p[3], GenNodeOf(p[2], p[3], Sub(rs, 5), 50))
       IN IF tag \in { "link", "joint" }
          THEN /\ robot' = [robot EXCEPT !.agg[i] = << tag, <<"o", SetVar(o, p[2], v)>> >>]
               /\ Emit([op |-> "edit", at |-> i, var |-> p[2], val |-> v])
          ELSE UNCHANGED robot /\ Emit([op |-> "look", exp |-> <<"o", robot>>])
  /\ UNCHANGED probe
Write == /\ Emit([op |-> "write", obj |-> <<"o", robot>>, out |-> WriteObj("robot", robot), style |-> HN(rs, 2, 6)])
         /\ UNCHANGED << robot, probe >>
Maps == /\ LET ls == Links(robot) js == Joints(robot)
           IN Emit([op |-> "maps", links |-> [ i \in 1..Len(ls) |-> Val(ls[i], "name") ], joints |-> [ i \in 1..Len(js) |-> Val(js[i], "name") ],
                    parents |-> ParentMap(robot), kids |-> ChildMap(robot), root |-> Root(robot)])
        /\ UNCHANGED << robot, probe >>
Chain ==
  /\ \E a \in Either({ LName(i) : i \in 1..MaxLinks }, LET l == HN(rs, 2, 10) IN IF l < 6 /\ ~IsBad(Root(robot)) THEN Root(robot) ELSE LName(1 + HN(rs, 3, MaxLinks))),
        b \in Either({ LName(i) : i \in 1..MaxLinks }, LName(1 + HN(rs, 4, MaxLinks + 1))),
        fl \in Either({ <<TRUE, TRUE, TRUE>> }, << HN(rs, 5, 3) # 0, HN(rs, 6, 3) # 0, HN(rs, 7, 2) = 0 >>) :
       LET c == ChainNames(robot, a, b, fl[1], fl[2], fl[3])
       IN Emit([op |-> "chain", a |-> a, b |-> b, fl |-> fl,
                exp |-> IF Cardinality(JointNames(robot)) < Len(Joints(robot)) THEN << "loop" >> ELSE c])
  /\ UNCHANGED << robot, probe >>

Op(name) == CASE name = "one" -> ReadOne [] name = "read" -> ReadRobot [] name = "new" -> New [] name = "addlink" -> AddLink
              [] name = "addjoint" -> AddJoint [] name = "edit" -> Edit [] name = "write" -> Write [] name = "maps" -> Maps [] name = "chain" -> Chain
Skip == Emit([op |-> "look", exp |-> <<"o", robot>>]) /\ UNCHANGED << robot, probe >>
Run == /\ left > 0
       /\ \E name \in IF left = NumOps /\ ~Exhaustive THEN { "read" } ELSE Pick(OpMix, rs, 71) : Op(name) \/ (~Exhaustive /\ ~ENABLED Op(name) /\ Skip)
       /\ left' = left - 1 /\ rs' = RsNext(rs)
Finish == /\ left = 0 /\ left' = -1
          /\ IF Exhaustive THEN TRUE ELSE PrintT("@@" \o ToJson(log))
          /\ UNCHANGED << rs, robot, probe, log >>
Next == Run \/ Finish
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == left \in -1..NumOps /\ robot.cls = "Robot"
Last == log[Len(log)]
IsOp(name) == log # <<>> /\ Last.op = name
\* what is written reads back as the same object, and writing that gives the same document
RoundTrip ==
  /\ ReadObj("Robot", WriteObj("robot", robot)) = <<"o", robot>>
  /\ IsOp("one") /\ ~IsBad(Last.exp) => ReadObj(Last.cls, WriteObj(Tag(Last.cls), Last.exp[2])) = Last.exp
                                         /\ WriteObj(Tag(Last.cls), ReadObj(Last.cls, Last.out)[2]) = Last.out
\* required parts are required
Required == Exhaustive /\ IsOp("one") => \A n \in Broken(Last.cls, Last.doc) : IsBad(ReadObj(Last.cls, n))
\* the maps agree with the links and joints
MapsOK ==
  LET js == Joints(robot)
      pm == ParentMap(robot)
      unique == \A i, k \in 1..Len(js) : i # k => Val(js[i], "child") # Val(js[k], "child")
  IN IsOp("maps") \/ IsOp("add") =>
     /\ \A e \in pm : \E i \in 1..Len(js) : e = << Val(js[i], "child"), Val(js[i], "name"), Val(js[i], "parent") >>
     /\ \A i \in 1..Len(js) : \E e \in ChildMap(robot) : e[1] = Val(js[i], "parent") /\ << Val(js[i], "name"), Val(js[i], "child") >> \in Range(e[2])
     /\ unique => Cardinality(pm) = Len(js)
     /\ ~IsBad(Root(robot)) => \A l \in LinkNames(robot) : Above(robot, l) = 0 <=> l = Root(robot)
\* a path starts and ends where it should, and each step is a joint between neighbours
ChainOK == IsOp("chain") /\ Last.exp[1] = "path" /\ Last.fl = <<TRUE, TRUE, TRUE>> =>
             LET p == Last.exp[2]
             IN /\ p[1] = Last.a /\ p[Len(p)] = Last.b /\ Len(p) % 2 = 1
                /\ \A i \in 1..((Len(p) - 1) \div 2) : \E j \in Range(Joints(robot)) :
                     /\ Val(j, "name") = p[2 * i] /\ Val(j, "parent") = p[2 * i - 1] /\ Val(j, "child") = p[2 * i + 1]
Safety == RoundTrip /\ Required /\ MapsOK /\ ChainOK
Frozen == [][log' # log => (Len(log') = Len(log) + 1 /\ (log'[Len(log')].op \in { "write", "maps", "chain", "one", "look" } => robot' = robot))]_vars
=============================================================================
