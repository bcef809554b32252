-------------------------------- MODULE Desc --------------------------------
(***************************************************************************)
(* Robot description objects (URDF and SDF), their XML, and the maps of a  *)
(* robot.  Reading and writing are driven by the schema of the classes.    *)
(*                                                                         *)
(* value   <<>> none, <<"s", n>> some string, <<"c", "..">> that string,   *)
(*         <<"n", n>> some number (0 is zero), <<"v", <<n, ..>>>> a vector,*)
(*         <<"b", b>>, <<"raw", node>>, <<"o", object>>                    *)
(* node    [tag, at: seq of <<name, value>>, kids: seq of nodes, text]     *)
(* object  [cls, vals: seq of <<variable, value>>, agg: seq of <<tag, value>>] *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
Bad == <<"bad">>
Num(n) == <<"n", n>>
Str(n) == <<"s", n>>
Con(c) == <<"c", c>>
Zero3 == <<"v", <<0, 0, 0>>>>

\* parameters: << kind, name, type, required, default >>
A(n, ty, req) == << "attr", n, ty, req, None >>
AD(n, ty, def) == << "attr", n, ty, FALSE, def >>
E(n, ty, req) == << "elem", n, ty, req, None >>
G(n, ty) == << "agg", n, ty, FALSE, None >>

UrdfClasses == << "Robot", "Link", "Joint", "Pose", "Color", "JointDynamics", "Box", "Cylinder", "Capsule", "Sphere", "Mesh", "Collision",
                  "Texture", "Material", "Visual", "Inertia", "Inertial", "JointCalibration", "JointLimit", "JointMimic",
                  "SafetyController", "PR2Transmission", "Transmission" >>
SdfClasses == << "SDF", "sModel", "sLink", "sJoint", "sInertial", "sBox", "sCylinder", "sSphere", "sMesh", "sScript", "sMaterial", "sVisual",
                 "sCollision", "sDynamics", "sLimit", "sAxis" >>

Schema(cls) ==
  CASE cls = "Robot" -> << A("name", "str", FALSE), G("link", "Link"), G("joint", "Joint"), G("gazebo", "raw"),
                           G("transmission", "transmission"), G("material", "Material") >>
    [] cls = "Pose" -> << AD("xyz", "vector3", Zero3), AD("rpy", "vector3", Zero3) >>
    [] cls = "Color" -> << A("rgba", "vector4", TRUE) >>
    [] cls = "JointDynamics" -> << A("damping", "float", FALSE), A("friction", "float", FALSE) >>
    [] cls = "Box" -> << A("size", "vector3", TRUE) >>
    [] cls \in { "Cylinder", "Capsule" } -> << A("radius", "float", TRUE), A("length", "float", TRUE) >>
    [] cls = "Sphere" -> << A("radius", "float", TRUE) >>
    [] cls = "Mesh" -> << A("filename", "str", TRUE), A("scale", "vector3", FALSE) >>
    [] cls = "Collision" -> << E("origin", "Pose", FALSE), E("geometry", "geometric", TRUE) >>
    [] cls = "Texture" -> << A("filename", "str", TRUE) >>
    [] cls \in { "Material", "LinkMaterial" } -> << A("name", "str", TRUE), E("color", "Color", FALSE), E("texture", "Texture", FALSE) >>
    [] cls = "Visual" -> << E("origin", "Pose", FALSE), E("geometry", "geometric", TRUE), E("material", "LinkMaterial", FALSE) >>
    [] cls = "Inertia" -> << A("ixx", "float", TRUE), A("ixy", "float", TRUE), A("ixz", "float", TRUE),
                             A("iyy", "float", TRUE), A("iyz", "float", TRUE), A("izz", "float", TRUE) >>
    [] cls = "Inertial" -> << E("origin", "Pose", FALSE), E("mass", "element_value", TRUE), E("inertia", "Inertia", FALSE) >>
    [] cls = "JointCalibration" -> << AD("rising", "float", Num(0)), AD("falling", "float", Num(0)) >>
    [] cls = "JointLimit" -> << A("effort", "float", TRUE), AD("lower", "float", Num(0)), AD("upper", "float", Num(0)), A("velocity", "float", TRUE) >>
    [] cls = "JointMimic" -> << A("joint", "str", TRUE), A("multiplier", "float", FALSE), A("offset", "float", FALSE) >>
    [] cls = "SafetyController" -> << A("k_velocity", "float", TRUE), AD("k_position", "float", Num(0)),
                                      AD("soft_lower_limit", "float", Num(0)), AD("soft_upper_limit", "float", Num(0)) >>
    [] cls = "Joint" -> << A("name", "str", TRUE), A("type", "str", TRUE), E("origin", "Pose", FALSE), E("axis", "element_xyz", FALSE),
                           E("parent", "element_link", TRUE), E("child", "element_link", TRUE), E("limit", "JointLimit", FALSE),
                           E("dynamics", "JointDynamics", FALSE), E("safety_controller", "SafetyController", FALSE),
                           E("calibration", "JointCalibration", FALSE), E("mimic", "JointMimic", FALSE) >>
    [] cls = "Link" -> << A("name", "str", TRUE), E("origin", "Pose", FALSE), G("visual", "Visual"), G("collision", "Collision"),
                          E("inertial", "Inertial", FALSE) >>
    [] cls = "PR2Transmission" -> << A("name", "str", TRUE), A("type", "str", TRUE), E("joint", "element_name", TRUE),
                                     E("actuator", "element_name", TRUE), E("mechanicalReduction", "float", TRUE) >>
    [] cls = "Actuator" -> << A("name", "str", TRUE), E("mechanicalReduction", "float", FALSE) >>
    [] cls = "TransmissionJoint" -> << A("name", "str", TRUE), G("hardwareInterface", "str") >>
    [] cls = "Transmission" -> << A("name", "str", TRUE), E("type", "str", TRUE), G("joint", "TransmissionJoint"), G("actuator", "Actuator") >>
    \* SDF
    [] cls = "SDF" -> << A("version", "str", FALSE), E("model", "sModel", FALSE) >>
    [] cls = "sModel" -> << A("name", "str", FALSE), G("link", "sLink"), G("joint", "sJoint"), E("pose", "vector6", FALSE) >>
    [] cls = "sLink" -> << A("name", "str", FALSE), E("inertial", "sInertial", FALSE), A("kinematic", "bool", FALSE),
                           G("visual", "sVisual"), G("collision", "sCollision"), E("pose", "vector6", FALSE) >>
    [] cls = "sJoint" -> << A("name", "str", FALSE), A("type", "str", FALSE), E("axis", "sAxis", FALSE), E("parent", "str", TRUE),
                            E("child", "str", TRUE), E("pose", "vector6", FALSE) >>
    [] cls = "sInertia" -> << E("ixx", "float", TRUE), E("ixy", "float", TRUE), E("ixz", "float", TRUE),
                              E("iyy", "float", TRUE), E("iyz", "float", TRUE), E("izz", "float", TRUE) >>
    [] cls = "sInertial" -> << E("mass", "float", TRUE), E("inertia", "sInertia", TRUE), E("pose", "vector6", FALSE) >>
    [] cls = "sBox" -> << E("size", "vector3", TRUE) >>
    [] cls = "sCylinder" -> << E("radius", "float", TRUE), E("length", "float", TRUE) >>
    [] cls = "sSphere" -> << E("radius", "float", TRUE) >>
    [] cls = "sMesh" -> << E("filename", "str", TRUE), E("scale", "vector3", FALSE) >>
    [] cls = "sScript" -> << E("name", "str", FALSE), E("uri", "str", FALSE) >>
    [] cls = "sMaterial" -> << A("name", "str", FALSE), E("script", "sScript", FALSE) >>
    [] cls = "sVisual" -> << A("name", "str", FALSE), E("geometry", "sgeometric", TRUE), E("material", "sMaterial", FALSE), E("pose", "vector6", FALSE) >>
    [] cls = "sCollision" -> << A("name", "str", FALSE), E("geometry", "sgeometric", TRUE), E("pose", "vector6", FALSE) >>
    [] cls = "sDynamics" -> << E("damping", "float", FALSE), E("friction", "float", FALSE) >>
    [] cls = "sLimit" -> << E("lower", "float", FALSE), E("upper", "float", FALSE) >>
    [] cls = "sAxis" -> << E("xyz", "vector3", TRUE), E("limit", "sLimit", FALSE), E("dynamics", "sDynamics", FALSE),
                           E("use_parent_model_frame", "bool", FALSE) >>

\* the tag under which an object of the class is written on its own
Tag(cls) == CASE cls = "Robot" -> "robot" [] cls = "Link" -> "link" [] cls = "Joint" -> "joint" [] cls = "Pose" -> "origin" [] cls = "Color" -> "color"
              [] cls = "JointDynamics" -> "dynamics" [] cls \in {"Box", "sBox"} -> "box" [] cls \in {"Cylinder", "sCylinder"} -> "cylinder"
              [] cls = "Capsule" -> "capsule" [] cls \in {"Sphere", "sSphere"} -> "sphere" [] cls \in {"Mesh", "sMesh"} -> "mesh"
              [] cls \in {"Collision", "sCollision"} -> "collision" [] cls = "Texture" -> "texture" [] cls \in {"Material", "sMaterial"} -> "material"
              [] cls \in {"Visual", "sVisual"} -> "visual" [] cls = "Inertia" -> "inertia" [] cls \in {"Inertial", "sInertial"} -> "inertial"
              [] cls = "JointCalibration" -> "calibration" [] cls = "JointLimit" -> "limit" [] cls = "JointMimic" -> "mimic"
              [] cls = "SafetyController" -> "safety_controller" [] cls = "PR2Transmission" -> "pr2_transmission" [] cls = "Transmission" -> "new_transmission"
              [] cls = "SDF" -> "sdf" [] cls = "sModel" -> "model" [] cls = "sLink" -> "link" [] cls = "sJoint" -> "joint" [] cls = "sScript" -> "script"
              [] cls = "sDynamics" -> "dynamics" [] cls = "sLimit" -> "limit" [] cls = "sAxis" -> "axis"

Basic == { "str", "float", "bool", "vector3", "vector4", "vector6" }
Size(ty) == CASE ty = "vector3" -> 3 [] ty = "vector4" -> 4 [] ty = "vector6" -> 6
SimpleAttr(ty) == CASE ty = "element_link" -> << "link", "str" >> [] ty = "element_name" -> << "name", "str" >>
                    [] ty = "element_value" -> << "value", "float" >> [] ty = "element_xyz" -> << "xyz", "vector3" >>
Simple == { "element_link", "element_name", "element_value", "element_xyz" }
Shapes(ty) == IF ty = "geometric" THEN << << "box", "Box" >>, << "cylinder", "Cylinder" >>, << "sphere", "Sphere" >>, << "mesh", "Mesh" >>, << "capsule", "Capsule" >> >>
              ELSE << << "box", "sBox" >>, << "cylinder", "sCylinder" >>, << "sphere", "sSphere" >>, << "mesh", "sMesh" >> >>
JointTypes == { "unknown", "revolute", "continuous", "prismatic", "floating", "planar", "fixed" }

Node(tag, at, kids, text) == [tag |-> tag, at |-> at, kids |-> kids, text |-> text]
Range2(s) == { s[i] : i \in 1..Len(s) }
RECURSIVE FirstAt(_, _)
FirstAt(at, n) == IF at = <<>> THEN None ELSE IF Head(at)[1] = n THEN Head(at)[2] ELSE FirstAt(Tail(at), n)
RECURSIVE FirstKid(_, _)
FirstKid(kids, n) == IF kids = <<>> THEN <<>> ELSE IF Head(kids).tag = n THEN << Head(kids) >> ELSE FirstKid(Tail(kids), n)

---------------------------------------------------------------------------
(* reading *)
Lex(ty, v) == IF v = None THEN (IF ty = "str" THEN Con("") ELSE Bad)
              ELSE CASE ty = "str" -> IF v[1] \in { "s", "c" } THEN v ELSE Bad
                     [] ty = "float" -> IF v[1] = "n" THEN v ELSE Bad
                     [] ty = "bool" -> IF v[1] = "b" THEN v ELSE Bad
                     [] OTHER -> IF v[1] = "v" /\ Len(v[2]) = Size(ty) THEN v ELSE Bad
IsBad(v) == v = Bad

RECURSIVE ReadObj(_, _), ReadVal(_, _)
\* extra rules of some classes
Valid(cls, vals, agg) ==
  CASE cls = "Joint" -> LET t == FirstAt(vals, "type") IN t[1] = "c" /\ t[2] \in JointTypes
    [] cls = "TransmissionJoint" -> agg # <<>>
    [] cls = "Transmission" -> (\E i \in 1..Len(agg) : agg[i][1] = "joint") /\ (\E i \in 1..Len(agg) : agg[i][1] = "actuator")
    [] OTHER -> TRUE
ReadObj(cls, node) ==
  LET sc == Schema(cls)
      params == SelectSeq(sc, LAMBDA p : p[1] # "agg")
      one(p) == IF p[1] = "attr"
                THEN LET v == FirstAt(node.at, p[2]) IN IF v # None THEN Lex(p[3], v) ELSE IF p[4] THEN Bad ELSE p[5]
                ELSE LET k == FirstKid(node.kids, p[2]) IN IF k # <<>> THEN ReadVal(p[3], k[1]) ELSE IF p[4] THEN Bad ELSE p[5]
      vals == [ i \in 1..Len(params) |-> << params[i][2], one(params[i]) >> ]
      aggOf(tag) == SelectSeq(sc, LAMBDA p : p[1] = "agg" /\ p[2] = tag)
      members == SelectSeq(node.kids, LAMBDA k : aggOf(k.tag) # <<>>)
      agg == [ i \in 1..Len(members) |-> << members[i].tag, ReadVal(aggOf(members[i].tag)[1][3], members[i]) >> ]
  IN IF (\E i \in 1..Len(vals) : IsBad(vals[i][2])) \/ (\E i \in 1..Len(agg) : IsBad(agg[i][2])) THEN Bad
     ELSE IF ~Valid(cls, vals, agg) THEN Bad
     ELSE <<"o", [cls |-> cls, vals |-> vals, agg |-> agg]>>
ReadVal(ty, node) ==
  IF ty \in Basic THEN Lex(ty, node.text)
  ELSE IF ty \in Simple THEN LET v == FirstAt(node.at, SimpleAttr(ty)[1]) IN IF v = None THEN Bad ELSE Lex(SimpleAttr(ty)[2], v)
  ELSE IF ty = "raw" THEN <<"raw", node>>
  ELSE IF ty \in { "geometric", "sgeometric" }
  THEN LET sh == Shapes(ty)
           fit == IF Len(node.kids) # 1 THEN {} ELSE { i \in 1..Len(sh) : sh[i][1] = node.kids[1].tag }
       IN IF fit = {} THEN Bad ELSE ReadObj(sh[CHOOSE i \in fit : TRUE][2], node.kids[1])
  ELSE IF ty = "transmission" THEN LET t == ReadObj("Transmission", node) IN IF IsBad(t) THEN ReadObj("PR2Transmission", node) ELSE t
  ELSE ReadObj(ty, node)

---------------------------------------------------------------------------
(* writing *)
RECURSIVE WriteObj(_, _), WriteVal(_, _, _)
WriteObj(tag, o) ==
  LET sc == Schema(o.cls)
      has(p) == FirstAt(o.vals, p[2]) # None
      ats == SelectSeq(sc, LAMBDA p : p[1] = "attr" /\ has(p))
      els == SelectSeq(sc, LAMBDA p : p[1] = "elem" /\ has(p))
      ty(t) == SelectSeq(sc, LAMBDA p : p[1] = "agg" /\ p[2] = t)[1][3]
  IN Node(tag, [ i \in 1..Len(ats) |-> << ats[i][2], FirstAt(o.vals, ats[i][2]) >> ],
          [ i \in 1..Len(els) |-> WriteVal(els[i][2], els[i][3], FirstAt(o.vals, els[i][2])) ]
            \o [ i \in 1..Len(o.agg) |-> WriteVal(o.agg[i][1], ty(o.agg[i][1]), o.agg[i][2]) ], None)
WriteVal(tag, ty, v) ==
  IF ty \in Basic THEN Node(tag, <<>>, <<>>, v)
  ELSE IF ty \in Simple THEN Node(tag, << << SimpleAttr(ty)[1], v >> >>, <<>>, None)
  ELSE IF ty = "raw" THEN v[2]
  ELSE IF ty \in { "geometric", "sgeometric" }
  THEN LET sh == Shapes(ty) i == CHOOSE i \in 1..Len(sh) : sh[i][2] = v[2].cls
       IN Node(tag, <<>>, << WriteObj(sh[i][1], v[2]) >>, None)
  ELSE WriteObj(tag, v[2])

---------------------------------------------------------------------------
(* the maps of a robot *)
Val(o, var) == FirstAt(o.vals, var)
Members(r, tag) == LET m == SelectSeq(r.agg, LAMBDA a : a[1] = tag) IN [ i \in 1..Len(m) |-> m[i][2][2] ]
Links(r) == Members(r, "link")
Joints(r) == Members(r, "joint")
LinkNames(r) == { Val(Links(r)[i], "name") : i \in 1..Len(Links(r)) }
JointNames(r) == { Val(Joints(r)[i], "name") : i \in 1..Len(Joints(r)) }
\* the joint above a link: the last one that names it as its child
RECURSIVE LastAbove(_, _, _)
LastAbove(js, i, l) == IF i = 0 THEN 0 ELSE IF Val(js[i], "child") = l THEN i ELSE LastAbove(js, i - 1, l)
Above(r, l) == LastAbove(Joints(r), Len(Joints(r)), l)
ParentMap(r) == LET js == Joints(r)  ls == { Val(js[i], "child") : i \in 1..Len(js) }
                IN { << l, Val(js[Above(r, l)], "name"), Val(js[Above(r, l)], "parent") >> : l \in ls }
ChildMap(r) == LET js == Joints(r)
                   kids(l) == SelectSeq(js, LAMBDA j : Val(j, "parent") = l)
               IN { << l, [ i \in 1..Len(kids(l)) |-> << Val(kids(l)[i], "name"), Val(kids(l)[i], "child") >> ] >> :
                    l \in { Val(js[i], "parent") : i \in 1..Len(js) } }
Roots(r) == { l \in LinkNames(r) : Above(r, l) = 0 }
Root(r) == IF Cardinality(Roots(r)) = 1 THEN CHOOSE l \in Roots(r) : TRUE ELSE Bad
\* joints of the path from link a up... down to link b, or Bad; TLC's integers bound the walk
RECURSIVE Up(_, _, _, _, _)
Up(r, a, l, acc, fuel) == IF l = a THEN << "path", acc >>
                          ELSE IF fuel = 0 THEN << "loop" >>
                          ELSE LET i == Above(r, l)
                               IN IF i = 0 THEN Bad ELSE Up(r, a, Val(Joints(r)[i], "parent"), << i >> \o acc, fuel - 1)
Path(r, a, b) == Up(r, a, b, <<>>, Len(Joints(r)) + 1)
RECURSIVE Names(_, _, _, _, _)
Names(r, ix, joints, links, fixed) ==
  IF ix = <<>> THEN <<>>
  ELSE LET j == Joints(r)[Head(ix)]
       IN (IF joints /\ (fixed \/ Val(j, "type") # Con("fixed")) THEN << Val(j, "name") >> ELSE <<>>)
          \o (IF links THEN << Val(j, "child") >> ELSE <<>>) \o Names(r, Tail(ix), joints, links, fixed)
ChainNames(r, a, b, joints, links, fixed) ==
  LET p == Path(r, a, b)
  IN IF p[1] # "path" THEN p ELSE << "path", (IF links THEN << a >> ELSE <<>>) \o Names(r, p[2], joints, links, fixed) >>
=============================================================================
