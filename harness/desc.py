"""Replays behaviours of DescSys into the URDF and SDF objects."""
import math, random
from xml.sax.saxutils import escape, quoteattr
import torch
from lxml import etree
import pytorch_kinematics as pk
from pytorch_kinematics.urdf_parser_py import urdf as U, sdf as S
from pytorch_kinematics.urdf_parser_py.xml_reflection import core
from base import Mismatch
from documents import shuffled

core.on_error = U.xmlr.on_error = lambda message: None   # unknown elements are reported, not rejected

WORDS = ["a", "base link", "joint_1", "x&y", "<z>", 'say "hi"', "it's", "\u00e4\u03b1", "0", "-1.5", "true", "None", "package://p/m.stl", "a.b/c", "", " lead",
         "trail ", "UPPER", "upper", "link", "name", "1e5", "#", "%s", "{}", "[0]", "a  b", "]]>", "0 0 0", "nan"]
NUMBERS = [1.0, -1.0, 0.5, -0.25, 2.0, 10.0, 0.1, 1 / 3, math.pi, -math.pi / 2, 1e-7, -3e-12, 123456789.123, 1e22, 1e-300, 5e300, -0.7853981633974483,
           1e16, 100000.0, 3.0, 7.25, 0.001, 1 + 2 ** -52, 33.333333333333336, -1e5]
ORDERED = {"link", "joint", "gazebo", "transmission", "material", "visual", "collision", "hardwareInterface", "actuator"}


def need(ok, kind, msg):
    if not ok:
        raise Mismatch(kind, msg)


class World:
    def __init__(self, seed):
        self.rng = rng = random.Random(seed)
        words = [w for w in WORDS if w] + ["w%d" % i for i in range(20)]
        rng.shuffle(words)
        self.words = {i + 1: w for i, w in enumerate(words)}
        style = rng.randrange(5)
        for i in range(1, 30):
            self.words[1000 + i] = ["link%d" % i, "a" * i, "L %d&" % (50 - i), "link%d" % i, "n%d" % i][style]
            self.words[2000 + i] = ["joint%d" % i, "a" * (30 - i), "link%d" % i, "link%d" % i, "n%d" % (1 + i % 5)][style]   # 3, 4: joints named as links
        nums = NUMBERS + [float(i) + 20.5 for i in range(60)]
        rng.shuffle(nums)
        self.nums = {i + 1: x for i, x in enumerate(nums)}
        self.nums[0] = 0.0
        self.robot = U.Robot()
        self.model = S.Model()      # an SDF model with the links and joints of the robot
        self.count = {}

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    # ------------------------------------------------------------- values
    def value(self, v):
        if v == []:
            return None
        k, x = v
        if k == "s":
            return self.words[x]
        if k == "c" or k == "b":
            return x
        if k == "n":
            return self.nums[x]
        if k == "v":
            return [self.nums[i] for i in x]
        raise AssertionError(v)

    def number(self, x):
        r = self.rng.random()
        if x == int(x) and abs(x) < 1e9 and r < .5:
            return "%d" % x
        return "%.17g" % x if r < .3 else "%.20e" % x if r < .5 else repr(x)

    def lexical(self, v):
        k, x = v
        if k == "n":
            return self.number(self.nums[x])
        if k == "v":
            s = self.rng.choice((" ", "  ", " ")).join(self.number(self.nums[i]) for i in x)
            return s if self.rng.random() < .9 else " " + s + " "
        if k == "b":
            return self.rng.choice(("true", "1", "True") if x else ("false", "0", "False"))
        return self.value(v)

    def render(self, node, raw=False, depth=0):
        rng = self.rng
        attrs = "".join(" %s=%s" % (n, quoteattr(self.lexical(v))) for n, v in shuffled(node["at"], rng))
        kids = list(node["kids"])
        if not raw:
            tags = [k["tag"] for k in kids]
            free = [k for k in kids if k["tag"] not in ORDERED and tags.count(k["tag"]) == 1]
            for k in free:
                if rng.random() < .5:
                    kids.remove(k)
                    kids.insert(rng.randrange(len(kids) + 1), k)
        text = escape(self.lexical(node["text"])) if node["text"] != [] else ""
        parts = [self.render(k, raw or k["tag"] == "gazebo", depth + 1) for k in kids]
        if parts and rng.random() < .1:
            parts.insert(rng.randrange(len(parts) + 1), "<!-- <link/> -->")
        if parts and rng.random() < .2:
            parts = ["\n" + "  " * depth + p for p in parts] + ["\n"]
        inner = text + "".join(parts)
        if not inner and rng.random() < .7:
            return "<%s%s/>" % (node["tag"], attrs)
        return "<%s%s>%s</%s>" % (node["tag"], attrs, inner, node["tag"])

    # ------------------------------------------------------------- compare
    def same_node(self, e, node, where):
        """an element of lxml is the node"""
        need(e.tag == node["tag"], "written", "%s: tag %s instead of %s" % (where, e.tag, node["tag"]))
        where += "/" + e.tag
        want = {n: v for n, v in node["at"]}
        need(set(e.attrib) == set(want), "written", "%s: attributes %s instead of %s" % (where, sorted(e.attrib), sorted(want)))
        for n, v in want.items():
            self.same_text(e.attrib[n], v, where + "@" + n)
        if node["text"] == []:
            need(not (e.text or "").strip(), "written", "%s: text %r" % (where, e.text))
        else:
            self.same_text(e.text or "", node["text"], where)
        kids = [k for k in e if isinstance(k.tag, str)]
        tags = sorted(set(k.tag for k in kids) | set(k["tag"] for k in node["kids"]))
        a = [k.tag for k in kids if k.tag in ORDERED]
        b = [k["tag"] for k in node["kids"] if k["tag"] in ORDERED]
        need(sorted(k.tag for k in kids) == sorted(k["tag"] for k in node["kids"]), "written", "%s: elements %s instead of %s" % (
            where, [k.tag for k in kids], [k["tag"] for k in node["kids"]]))
        if e.tag in ("robot", "link", "model"):
            need(a == b, "written", "%s: order %s instead of %s" % (where, a, b))
        for t in tags:
            for x, y in zip([k for k in kids if k.tag == t], [k for k in node["kids"] if k["tag"] == t]):
                self.same_node(x, y, where)

    def same_text(self, text, v, where):
        k, x = v
        try:
            if k == "n":
                ok = float(text) == self.nums[x]
            elif k == "v":
                ok = [float(t) for t in text.split()] == [self.nums[i] for i in x]
            elif k == "b":
                ok = text in (("true", "1") if x else ("false", "0"))
            else:
                ok = text == self.value(v)
        except ValueError:
            ok = False
        need(ok, "written", "%s: %r is not %r" % (where, text, self.value(v)))

    def same_value(self, got, v, where):
        if v == []:
            need(got is None, "object", "%s: %r instead of nothing" % (where, got))
        elif v[0] == "o":
            self.same_obj(got, v[1], where)
        elif v[0] == "raw":
            need(isinstance(got, etree._Element), "object", "%s: %r" % (where, type(got)))
            self.same_node(got, v[1], where)
        else:
            want = self.value(v)
            ok = type(got) is bool and got == want if v[0] == "b" else isinstance(got, (float, int)) and got == want if v[0] == "n" else \
                isinstance(got, str) and got == want if v[0] in "sc" else list(got) == want if v[0] == "v" and got is not None else False
            need(ok, "object", "%s: %r instead of %r" % (where, got, want))

    def same_obj(self, got, exp, where=""):
        cls = klass(exp["cls"])
        need(isinstance(got, cls), "object", "%s: %r is not a %s" % (where, type(got), exp["cls"]))
        where += "/" + exp["cls"]
        for var, v in exp["vals"]:
            self.same_value(getattr(got, var), v, where + "." + var)
        if exp["agg"] or hasattr(got, "aggregate_order"):
            order = list(got.aggregate_order)
            need(len(order) == len(exp["agg"]), "object", "%s: %d parts instead of %d" % (where, len(order), len(exp["agg"])))
            for k, (tag, v) in enumerate(exp["agg"]):
                self.same_value(order[k], v, "%s.%s[%d]" % (where, tag, k))
            for tag in set(t for t, _ in exp["agg"]) | {p.xml_var for p in cls.XML_REFL.aggregates}:
                mine = [v for t, v in exp["agg"] if t == tag]
                lst = got.get_aggregate_list(tag)
                need(len(lst) == len(mine) and all(a is b for a, b in zip(lst, [o for o, (t, _) in zip(order, exp["agg"]) if t == tag])),
                     "object", "%s: list of %s does not agree" % (where, tag))
            if exp["cls"] == "Link":
                for attr, tag in (("visual", "visual"), ("collision", "collision")):
                    lst = got.get_aggregate_list(tag)
                    need(getattr(got, attr) is (lst[0] if lst else None), "object", "%s.%s" % (where, attr))

    # ------------------------------------------------------------- making objects
    def make(self, v, ctor=False):
        if v == []:
            return None
        if v[0] == "raw":
            return etree.fromstring(self.render(v[1], raw=True))
        if v[0] != "o":
            return self.value(v)
        o = v[1]
        cls = klass(o["cls"])
        vals = {n: self.make(x, ctor) for n, x in o["vals"]}
        names = CTOR.get(o["cls"])
        agg = [(t, self.make(x, ctor)) for t, x in o["agg"]]
        if ctor and names is not None and set(names) == set(vals):
            if o["cls"] == "Color":
                return cls(vals["rgba"]) if self.rng.random() < .5 else cls(*vals["rgba"])
            kw = {names[n]: x for n, x in vals.items() if x is not None or self.rng.random() < .5}
            if o["cls"] == "Link" and [t for t, _ in agg] in (["visual"], ["collision"], ["visual", "collision"]):
                kw.update(agg)
                agg = []
            obj = cls(**kw)
        else:
            obj = cls()
            for n, x in vals.items():
                setattr(obj, n, x)
        for t, x in agg:
            obj.add_aggregate(t, x)
        return obj

    # ------------------------------------------------------------- operations
    def read(self, cls, doc):
        text = self.render(doc)
        if self.rng.random() < .2:
            text = '<?xml version="1.0"?>\n' + text
        style = self.rng.randrange(3)
        self.text = text
        if style == 0:
            return cls.from_xml_string(text)
        if style == 1:
            return cls.from_xml_string(text.encode("utf-8"))
        return cls().parse(text)

    def read_expect(self, cls, doc, exp):
        try:
            got = self.read(cls, doc)
        except Exception as e:
            need(exp == ["bad"], "read", "%r for %s" % (e, self.text))
            self.tick("rejected")
            return None
        need(exp != ["bad"], "accepted", "not rejected: %s" % self.text)
        try:
            self.same_obj(got, exp[1])
        except Mismatch as e:
            raise Mismatch("read", "%s\nreading %s" % (e, self.text))
        self.tick("read")
        return got

    def one(self, ev):
        cls = klass(ev["cls"])
        got = self.read_expect(cls, ev["doc"], ev["exp"])
        if got is not None:
            self.written(got, ev["exp"], ev["out"], self.rng.randrange(6))

    def written(self, obj, exp, out, style):
        """writing it gives `out`, reads back as `exp`, and leaves it as it is; once more"""
        for k in range(2):
            if style == 0:
                str(obj)
            if type(obj).XML_REFL.tag is None:   # a class which does not name its element
                root = etree.Element(out["tag"])
                obj.write_xml(root)
                text = etree.tostring(root, encoding="unicode")
            else:
                text = obj.to_xml_string(False) if style == 1 else obj.to_xml_string(addHeader=False) if style == 2 else obj.to_xml_string()
                root = obj.to_xml() if style == 3 else etree.fromstring(text.encode("utf-8"))
            try:
                self.same_node(root, out, "")
                back = type(obj).from_xml_string(text)
                self.same_obj(back, exp[1], "read back")
                self.same_obj(obj, exp[1], "after writing")
            except Mismatch as e:
                raise Mismatch("write", "%s\nwriting (%d) %s" % (e, k + 1, text))
        self.tick("written")
        return text

    def behaves(self, a, b):
        """two documents give the same chain, or none"""
        out = []
        for text in (a, b):
            try:
                out.append(pk.build_chain_from_urdf(text))
            except Exception as e:
                out.append(None)
        x, y = out
        need((x is None) == (y is None), "kinematics", "only one of the two can be loaded:\n%s\n%s" % (a, b))
        if x is None:
            return
        need(x.get_joint_parameter_names() == y.get_joint_parameter_names() and x.get_joint_limits() == y.get_joint_limits()
             and x.get_frame_names(False) == y.get_frame_names(False), "kinematics", "other joints:\n%s\n%s" % (a, b))
        th = torch.linspace(-2, 3, max(x.n_joints, 1), dtype=x.dtype)[:x.n_joints].unsqueeze(0)
        if x.n_joints:
            p, q = x.forward_kinematics_tensor(th), y.forward_kinematics_tensor(th)
            need(torch.allclose(p, q, rtol=1e-6, atol=1e-6, equal_nan=True), "kinematics", "other poses:\n%s\n%s" % (a, b))
        self.tick("same_kinematics")

    def step(self, ev):
        op, r = ev["op"], self.robot
        self.tick("op_" + op)
        if op == "one":
            self.one(ev)
        elif op == "read":
            got = self.read_expect(U.Robot, ev["doc"], ev["exp"])
            if got is not None:
                self.robot = got
                self.read_model(ev["exp"][1]["agg"])
        elif op == "new":
            self.robot = U.Robot() if self.rng.random() < .5 else U.Robot(None)
            self.model = S.Model()
        elif op == "add":
            how = ev["how"]
            if how == 0:
                obj = self.make(ev["obj"])
            elif how == 1:
                text = self.make(ev["obj"]).to_xml_string()
                obj = klass(ev["obj"][1]["cls"]).from_xml_string(text)
            else:
                obj = self.make(ev["obj"], ctor=True)
            self.same_obj(obj, ev["obj"][1], "made")
            if how == 3:
                r.add_aggregate(ev["tag"], obj)
            else:
                (r.add_link if ev["tag"] == "link" else r.add_joint)(obj)
            self.add_to_model(ev["tag"], ev["obj"], how)
        elif op == "edit":
            setattr(r.aggregate_order[ev["at"] - 1], ev["var"], self.make(ev["val"], ctor=self.rng.random() < .5))
        elif op == "look":
            self.same_obj(r, ev["exp"][1])
        elif op == "write":
            text = self.written(r, ev["obj"], ev["out"], ev["style"])
            if self.rng.random() < .5:
                self.behaves(self.render(ev["out"]), text)
        elif op == "maps":
            self.maps(ev, r)
        elif op == "chain":
            self.chain(ev, r)
        else:
            raise AssertionError(op)

    def parts(self, v):
        vals = dict(v[1]["vals"])
        return {k: self.value(vals[k]) for k in ("name", "parent", "child") if k in vals}

    def read_model(self, agg):
        """the links and joints among the parts of a robot, as an SDF file"""
        text = ""
        for tag, v in agg:
            if tag in ("link", "joint"):
                p = self.parts(v)
                text += "<%s name=%s>%s</%s>" % (tag, quoteattr(p["name"]), "".join("<%s>%s</%s>" % (k, escape(p[k]), k) for k in ("parent", "child") if k in p), tag)
        text = '<model name="m">%s</model>' % text
        self.model = S.Model.from_xml_string(text) if self.rng.random() < .5 else S.SDF.from_xml_string('<sdf version="1.6">%s</sdf>' % text).model

    def add_to_model(self, tag, v, how):
        p = self.parts(v)
        obj = S.Link(p["name"]) if tag == "link" else S.Joint(p["name"], p["parent"], p["child"])
        if how % 2:
            self.model.add_aggregate(tag, obj)
        else:
            (self.model.add_link if tag == "link" else self.model.add_joint)(obj)

    def maps(self, ev, r):
        self.same_maps(ev, self.model)
        self.same_maps(ev, r)
        self.root(ev, r)

    def same_maps(self, ev, r):
        v = self.value
        need([x.name for x in r.links] == [v(x) for x in ev["links"]], "maps", "links %s" % [x.name for x in r.links])
        need([x.name for x in r.joints] == [v(x) for x in ev["joints"]], "maps", "joints %s" % [x.name for x in r.joints])
        for m, lst in ((r.link_map, r.links), (r.joint_map, r.joints)):
            want = {x.name: x for x in lst}
            need(set(m) == set(want) and all(m[k] is want[k] for k in want), "maps", "map %s of %s" % (sorted(m), [x.name for x in lst]))
        want = {v(a): (v(b), v(c)) for a, b, c in ev["parents"]}
        need(r.parent_map == want, "maps", "parent map %s instead of %s" % (r.parent_map, want))
        want = {v(a): [(v(x), v(y)) for x, y in b] for a, b in ev["kids"]}
        need(r.child_map == want, "maps", "child map %s instead of %s" % (r.child_map, want))
        self.tick("maps")

    def root(self, ev, r):
        v = self.value
        try:
            root = r.get_root()
        except Exception:
            need(ev["root"] == ["bad"], "maps", "no root instead of %s" % (ev["root"],))
            return
        need(ev["root"] != ["bad"] and root == v(ev["root"]), "maps", "root %s instead of %s" % (root, ev["root"]))

    def chain(self, ev, r):
        if ev["exp"] == ["loop"]:
            return
        a, b = self.value(ev["a"]), self.value(ev["b"])
        j, l, f = ev["fl"]
        try:
            if j and l and f:
                got = r.get_chain(a, b)
            elif self.rng.random() < .5:
                got = r.get_chain(a, b, j, l, f)
            else:
                got = r.get_chain(a, b, joints=j, links=l, fixed=f)
        except Exception as e:
            need(ev["exp"] == ["bad"], "chain", "%r for the path from %s to %s" % (e, a, b))
            return
        need(ev["exp"] != ["bad"], "chain", "a path %s from %s to %s" % (got, a, b))
        want = [self.value(x) for x in ev["exp"][1]]
        need(got == want, "chain", "path %s instead of %s" % (got, want))
        self.tick("paths")


CTOR = {
    "Pose": {"xyz": "xyz", "rpy": "rpy"}, "Color": {"rgba": "rgba"}, "JointDynamics": {"damping": "damping", "friction": "friction"},
    "Box": {"size": "size"}, "Cylinder": {"radius": "radius", "length": "length"}, "Capsule": {"radius": "radius", "length": "length"},
    "Sphere": {"radius": "radius"}, "Mesh": {"filename": "filename", "scale": "scale"}, "Collision": {"geometry": "geometry", "origin": "origin"},
    "Texture": {"filename": "filename"}, "Material": {"name": "name", "color": "color", "texture": "texture"},
    "LinkMaterial": {"name": "name", "color": "color", "texture": "texture"},
    "Visual": {"geometry": "geometry", "material": "material", "origin": "origin"},
    "Inertia": {k: k for k in ("ixx", "ixy", "ixz", "iyy", "iyz", "izz")},
    "Inertial": {"mass": "mass", "inertia": "inertia", "origin": "origin"}, "JointCalibration": {"rising": "rising", "falling": "falling"},
    "JointLimit": {k: k for k in ("effort", "velocity", "lower", "upper")},
    "JointMimic": {"joint": "joint_name", "multiplier": "multiplier", "offset": "offset"},
    "SafetyController": {"k_velocity": "velocity", "k_position": "position", "soft_lower_limit": "lower", "soft_upper_limit": "upper"},
    "Joint": {"name": "name", "parent": "parent", "child": "child", "type": "joint_type", "axis": "axis", "origin": "origin", "limit": "limit",
              "dynamics": "dynamics", "safety_controller": "safety_controller", "calibration": "calibration", "mimic": "mimic"},
    "Link": {"name": "name", "inertial": "inertial", "origin": "origin"},
    "Actuator": {"name": "name", "mechanicalReduction": "mechanicalReduction"},
    "PR2Transmission": {"name": "name", "joint": "joint", "actuator": "actuator", "type": "type", "mechanicalReduction": "mechanicalReduction"},
}


def klass(name):
    return getattr(S, name[1:]) if name[0] == "s" else S.SDF if name == "SDF" else getattr(U, name)


def replay(beh, seed, opts):
    w = World(seed)
    for k, ev in enumerate(beh):
        try:
            w.step(ev)
        except Mismatch as e:
            raise Mismatch(e.kind, "event %d (%s): %s" % (k + 1, ev["op"], e)) from None
    w.tick("behaviours")
    return w.count
