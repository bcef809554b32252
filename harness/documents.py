"""Writes the robots of the specification as URDF, SDF and MJCF documents, with the liberties the formats leave."""
import math

import numpy as np
from xml.sax.saxutils import quoteattr, escape

INFINITE = 1000000


def angle(ak, rng):
    a = 2 * math.atan2(ak[1], ak[0])
    return a + (rng.choice((-2, 2)) * math.pi if rng.random() < .06 else 0)


def num(x, rng=None):
    x = float(x)
    if x == int(x) and abs(x) < 1e6 and rng is not None and rng.random() < .6:
        return str(int(x))
    if x and rng is not None and rng.random() < .15:
        return "%.17e" % x
    return repr(x)


def nums(v, rng):
    s = rng.choice((" ", " ", " ", "  ")).join(num(x, rng) for x in v)
    return s if rng.random() < .85 else " " + s + " "


def turn(axis, a):
    m, c, s = np.eye(3), math.cos(a), math.sin(a)
    j, k = [(1, 2), (2, 0), (0, 1)][axis]
    m[j, j] = m[k, k] = c
    m[j, k], m[k, j] = -s, s
    return m


def matrix(doc, fmt):
    """the pose an element describes"""
    m = np.eye(4)
    a = [2 * math.atan2(k[1], k[0]) for k in doc["rpy"]]
    x, y, z = (turn(k, a[k]) for k in range(3))
    if fmt == "mjcf":
        w = doc["q"]
        if doc["org"] == 2:
            m[:3, :3] = x @ y @ z
        elif doc["org"]:
            w, v = w[0], np.array(w[1:], dtype=float)
            cross = np.cross(v, np.eye(3)).T
            m[:3, :3] = ((w * w - v @ v) * np.eye(3) + 2 * np.outer(v, v) + 2 * w * cross) / (w * w + v @ v)
    elif doc["org"] in (2, 3) or fmt == "sdf":
        m[:3, :3] = z @ y @ x
    if fmt != "urdf" or doc["org"] in (1, 2):
        m[:3, 3] = xyz(doc)
    return m


def rewritten(doc, m, rng):
    """the same element for any pose"""
    m = np.array(m, dtype=float)
    roll = math.atan2(m[2, 1], m[2, 2])
    c, s = math.cos(roll), math.sin(roll)
    ang = [roll, math.atan2(-m[2, 0], math.hypot(m[2, 1], m[2, 2])), math.atan2(s * m[0, 2] - c * m[0, 1], c * m[1, 1] - s * m[1, 2])]
    return dict(doc, m=m, ang=ang, org=doc["org"] or 2)


def quaternion(R):
    """of a rotation matrix, (w, x, y, z)"""
    k = np.array([[R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0], [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
                  [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
                  [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3
    v = np.linalg.eigh(k)[1][:, -1]
    return [float(x) for x in (v[3], v[0], v[1], v[2])]


def rpy(doc, rng):
    if "m" in doc:
        return [a + (rng.choice((-2, 2)) * math.pi if rng.random() < .06 else 0) for a in doc["ang"]]
    return [angle(a, rng) for a in doc["rpy"]]


def xyz(doc):
    if "m" in doc:
        return [float(x) for x in doc["m"][:3, 3]]
    return [x / doc["den"] for x in doc["t"]]


def shuffled(items, rng):
    items = list(items)
    rng.shuffle(items)
    return items


MESHES = ("package://a/b.stl", "b.stl", "meshes/%d & more.dae")


def geometry(rng, v=None):
    if v is None:
        v = {"kind": rng.choice(("box", "cylinder", "sphere", "mesh", "scaled")), "dims": [1, 2, 3]}
    d = [num(x / 4, rng) for x in v["dims"]]
    return {"box": lambda: '<box size="%s %s %s"/>' % tuple(d), "cylinder": lambda: element("cylinder", [("radius", d[0]), ("length", d[1])], "", rng),
            "sphere": lambda: '<sphere radius="%s"/>' % d[0], "mesh": lambda: '<mesh filename=%s/>' % quoteattr(MESHES[v["dims"][0] % 3]),
            "scaled": lambda: element("mesh", [("filename", MESHES[v["dims"][0] % 3]), ("scale", " ".join(d))], "", rng)}[v["kind"]]()


def sdf_geometry(v, rng):
    d = [num(x / 4, rng) for x in v["dims"]]
    return {"box": "<box><size>%s %s %s</size></box>" % tuple(d), "sphere": "<sphere><radius>%s</radius></sphere>" % d[0],
            "cylinder": "<cylinder>%s</cylinder>" % "".join(shuffled(["<radius>%s</radius>" % d[0], "<length>%s</length>" % d[1]], rng)),
            "mesh": "<mesh><filename>%s</filename></mesh>" % escape(MESHES[v["dims"][0] % 3])}[v["kind"]]


def urdf_origin(d, rng):
    if d["org"] == 0:
        return "<origin/>" if rng.random() < .3 else ""
    if "m" in d:
        return element("origin", [("xyz", nums(xyz(d), rng)), ("rpy", nums(rpy(d, rng), rng))], "", rng)
    return element("origin", [("xyz", nums(xyz(d), rng)) if d["org"] in (1, 2) else None,
                              ("rpy", nums(rpy(d, rng), rng)) if d["org"] in (2, 3) else None], "", rng)


def element(tag, attrs, inner="", rng=None):
    a = shuffled([x for x in attrs if x is not None], rng)
    head = "<%s%s" % (tag, "".join(" %s=%s" % (k, quoteattr(v)) for k, v in a))
    return head + ("/>" if not inner and rng.random() < .7 else ">%s</%s>" % (inner, tag))


def mixed(fixed, free, rng):
    """free ones anywhere among the fixed ones, which keep their order"""
    out = list(fixed)
    for x in free:
        out.insert(rng.randrange(len(out) + 1), x)
    return out


def urdf_link(f, name, rng):
    parts, vis = [], []
    for v in f["doc"]["vis"]:
        m = '<material name="m"><color rgba="1 0 0 1"/></material>' if rng.random() < .3 else ""
        vis.append("<visual>%s</visual>" % "".join(shuffled([urdf_origin(v, rng), "<geometry>%s</geometry>" % geometry(rng, v), m], rng)))
    if rng.random() < .3:
        parts.append('<collision><origin xyz="3 3 3"/><geometry>%s</geometry></collision>' % geometry(rng))
    if rng.random() < .3:
        parts.append('<inertial><origin xyz="1 1 1" rpy="1 1 1"/><mass value="2"/>'
                     '<inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial>')
    return element("link", [("name", name)], "".join(mixed(vis, parts, rng)), rng)


def urdf_joint(f, nm, rng, odd=None):
    d = f["doc"]
    kind = {"F": "fixed", "P": "prismatic", "R": "continuous" if d["cont"] else "revolute"}[f["jt"]]
    if f["id"] == odd:
        kind = rng.choice(("floating", "planar", "nosuch", ""))
    parts = [element("parent", [("link", nm.frame[f["par"]])], "", rng), element("child", [("link", nm.frame[f["id"]])], "", rng)]
    origin = urdf_origin(d, rng)
    if origin:
        parts.append(origin)
    if f["jt"] != "F" or rng.random() < .5:
        # what matters is the direction of the axis
        s = rng.choice((1, 1, 0.5, 2))
        parts.append(element("axis", [("xyz", nums([s * x for x in f["ax"]], rng))], "", rng))
    if d["lx"]:
        parts.append(element("limit", [("lower", num(d["low"] / 8, rng)) if d["lx"] in (1, 3) else None,
                                       ("upper", num(d["high"] / 8, rng)) if d["lx"] in (1, 2) else None,
                                       ("velocity", num(d["vel"] / 8, rng)), ("effort", num(d["eff"] / 8, rng))], "", rng))
    if rng.random() < .2:
        parts.append('<dynamics damping="3"/>')
    if rng.random() < .1:
        parts.append('<safety_controller k_velocity="1" soft_lower_limit="-9" soft_upper_limit="9"/>')
    if rng.random() < .1:
        parts.append('<calibration rising="4"/>')
    return element("joint", [("name", nm.joint[f["id"]]), ("type", kind)], "".join(shuffled(parts, rng)), rng)


def order(links, joints, rng):
    """both in their own order, mixed with each other in some way"""
    style = rng.randrange(4)
    if style == 0:
        return links + joints
    if style == 1:
        return joints + links
    out, a, b = [], list(links), list(joints)
    while a or b:
        s = a if a and (not b or rng.random() < .5) else b
        out.append(s.pop(0))
    return out


def urdf(ev, nm, rng, odd=None):
    fr = {f["id"]: f for f in ev["tree"]}
    links = [urdf_link(fr[i], nm.frame[i], rng) for i in ev["links"]]
    joints = [urdf_joint(fr[i], nm, rng, odd) for i in ev["joints"] if fr[i]["par"]]
    body = order(links, joints, rng)
    if rng.random() < .2:
        body.insert(0, '<material name="m"><color rgba="0 0 1 1"/></material>')
    if rng.random() < .2:
        body.append('<gazebo reference=%s><a x="1"/></gazebo>' % quoteattr(nm.frame[1]))
    if rng.random() < .3:
        body = ["  %s\n" % x for x in body]
        body.insert(0, "<!-- a robot -->\n")
    head = '<?xml version="1.0" ?>\n' if rng.random() < .3 else ""
    return "%s<robot%s>%s</robot>" % (head, ' name="r"' if rng.random() < .8 else "", "".join(body))


def sdf_link(f, nm, rng):
    d = f["doc"]
    parts = []
    p = xyz(d) + rpy(d, rng)
    if any(p) or rng.random() < .5:
        parts.append("<pose>%s</pose>" % nums(p, rng))
    if rng.random() < .3:
        parts.append('<inertial><pose>1 1 1 0 0 0</pose><mass>2</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy>'
                     '<iyz>0</iyz><izz>1</izz></inertia></inertial>')
    vis = []
    for k, v in enumerate(d["vis"]):
        pose = [] if v["org"] == 0 else ["<pose>%s</pose>" % nums(xyz(v) + rpy(v, rng), rng)]
        vis.append('<visual name="v%d">%s</visual>' % (k, "".join(shuffled(pose + ["<geometry>%s</geometry>" % sdf_geometry(v, rng)], rng))))
    if rng.random() < .3:
        parts.append('<collision name="c"><geometry><box><size>1 1 1</size></box></geometry></collision>')
    return element("link", [("name", nm.frame[f["id"]])], "".join(mixed(vis, parts, rng)), rng)


def sdf_joint(f, nm, rng, odd=None):
    d = f["doc"]
    parts = ["<parent>%s</parent>" % escape(nm.frame[f["par"]]), "<child>%s</child>" % escape(nm.frame[f["id"]])]
    if f["jt"] != "F" or d["lx"] or rng.random() < .5:
        s = rng.choice((1, 1, 0.5, 2))
        inner = ["<xyz>%s</xyz>" % nums([s * x for x in f["ax"]], rng)]
        if d["lx"]:
            inner.append("<limit>%s</limit>" % "".join(shuffled(
                (["<lower>%s</lower>" % num(d["low"] / 8, rng)] if d["lx"] in (1, 3) else []) +
                (["<upper>%s</upper>" % num(d["high"] / 8, rng)] if d["lx"] in (1, 2) else []), rng)))
        if rng.random() < .2:
            inner.append("<dynamics><damping>1</damping></dynamics>")
        parts.append("<axis>%s</axis>" % "".join(shuffled(inner, rng)))
    kind = {"F": "fixed", "P": "prismatic", "R": "revolute"}[f["jt"]]
    if f["id"] == odd:
        kind = rng.choice(("ball", "universal", "nosuch"))
    return element("joint", [("name", nm.joint[f["id"]]), ("type", kind)], "".join(shuffled(parts, rng)), rng)


def sdf(ev, nm, rng, odd=None):
    fr = {f["id"]: f for f in ev["tree"]}
    body = order([sdf_link(fr[i], nm, rng) for i in ev["links"]], [sdf_joint(fr[i], nm, rng, odd) for i in ev["joints"] if fr[i]["par"]], rng)
    if rng.random() < .3:
        body = ["  %s\n" % x for x in body]
    return '<sdf version="1.6"><model name="m">%s</model></sdf>' % "".join(body)


def mjcf(ev, nm, rng, several=None, odd=None):
    """several: a body that gets more joints than it may have; odd: one that gets an unsupported joint"""
    degrees = rng.random() < .5

    def unit(a):
        return math.degrees(a) if degrees else a

    def orientation(d):
        if "m" in d:
            R = d["m"][:3, :3]
            q = quaternion(R)
            how = rng.randrange(4)
            if how == 0:
                return ("quat", nums([s * x for s in [rng.choice((1, -1, 2.5))] for x in q], rng))
            if how == 1:
                b = math.atan2(R[0, 2], math.hypot(R[1, 2], R[2, 2]))
                a = math.atan2(-R[1, 2], R[2, 2])
                c = math.atan2(math.cos(a) * R[1, 0] + math.sin(a) * R[2, 0], math.cos(a) * R[1, 1] + math.sin(a) * R[2, 1])
                return ("euler", nums([unit(x) for x in (a, b, c)], rng))
            if how == 2:
                n = math.sqrt(sum(x * x for x in q[1:]))
                if n > 1e-12:
                    return ("axisangle", nums([x / n for x in q[1:]] + [unit(2 * math.atan2(n, q[0]))], rng))
            return ("xyaxes", nums([float(x) for x in list(R[:, 0]) + list(R[:, 1])], rng))
        if d["org"] == 1:
            s = rng.choice((1, 1, -1, 0.5))
            return ("quat", nums([s * x for x in d["q"]], rng))
        if d["org"] == 2:
            return ("euler", nums([unit(a) for a in rpy(d, rng)], rng))
        if d["org"] == 3:
            a, v = d["q"][0], d["q"][1:]
            n = math.sqrt(sum(x * x for x in v))
            return ("axisangle", nums((v if n else [0, 0, 1]) + [unit(2 * math.atan2(n, a))], rng))
        if d["org"] == 4:
            a, x, y, z = d["q"]
            return ("xyaxes", nums([a * a + x * x - y * y - z * z, 2 * (x * y + a * z), 2 * (x * z - a * y),
                                    2 * (x * y - a * z), a * a - x * x + y * y - z * z, 2 * (y * z + a * x)], rng))
        return ("quat", "1 0 0 0") if rng.random() < .2 else None

    def place(d):
        p = xyz(d)
        return ("pos", nums(p, rng)) if any(p) or rng.random() < .5 else None

    def geom(v):
        n = {"box": 3, "cylinder": 2, "sphere": 1, "capsule": 2, "ellipsoid": 3}[v["kind"]]
        return element("geom", [("type", v["kind"]) if v["kind"] != "sphere" or rng.random() < .5 else None, place(v), orientation(v),
                                ("size", nums([x / 4 for x in v["dims"][:n]], rng))], "", rng)

    def joint(f):
        d = f["doc"]
        if f["id"] == odd:
            return '<joint type="ball" name="odd"/>'
        if f["jt"] == "F":
            return ""
        attrs = [("name", nm.joint[f["id"]])]
        if f["jt"] == "P" or rng.random() < .5:
            attrs.append(("type", "hinge" if f["jt"] == "R" else "slide"))
        if f["ax"] != [0, 0, 1] or rng.random() < .5:
            attrs.append(("axis", nums(f["ax"], rng)))
        if d["lx"] in (1, 2):
            c = (lambda x: unit(x / 8)) if f["jt"] == "R" else (lambda x: x / 8)
            attrs.append(("range", "%s %s" % (num(c(d["low"]), None), num(c(d["high"]), None))))
            if d["lx"] == 2:
                attrs.append(("limited", "false"))   # the range does not count
            elif rng.random() < .3:
                attrs.append(("limited", "true"))
        if rng.random() < .2:
            attrs.append(("damping", "0.5"))
        return element("joint", attrs, "", rng)

    def inside(i):
        kids = [f for f in ev["tree"] if f["par"] == i]
        out = []
        for f in kids:
            d = f["doc"]
            attrs = [("name", nm.frame[f["id"]]), place(d), orientation(d)]
            if several is odd is None and f["id"] == ev.get("root") and f["par"] == 1 and f["jt"] == "F" and not d["site"] and rng.random() < .4:
                floating.append('<freejoint/>')   # the robot starts at this body
            if d["site"]:
                out.append(element("site", attrs, "", rng))
            else:
                js = [joint(f)] + floating[:1] * (f["id"] == ev.get("root"))
                if f["id"] == several:
                    js += ['<joint type="%s" axis="0 1 %d"/>' % (rng.choice(("hinge", "slide")), k) for k in range(2)][f["jt"] != "F":]
                geoms = [geom(v) for v in d["vis"]]
                if not geoms or rng.random() < .2:
                    js.append('<inertial pos="0.1 0 0" mass="2" diaginertia="1 1 1"/>')
                out.append(element("body", attrs, "".join(mixed(geoms, js + [inside(f["id"])], rng)), rng))
        return "".join(shuffled(out, rng))

    floating = []
    free = [inside(1)]
    if several is odd is None and ev.get("root", 1) != 1:
        # other things in the world of a robot
        things = ['<body name="thing_%d" pos="0 %d 5">%s<geom size="0.1"/>%s</body>' % (
            k, 3 * k, rng.choice(("<freejoint/>", '<joint type="ball"/>', '<joint type="slide" range="-1 2"/>', "")),
            rng.choice(("", '<site name="spot_%d"/>' % k, '<body pos="0 0 1"><joint axis="1 0 0"/><geom size="0.2"/></body>'))) for k in range(rng.choice((0, 1, 1, 2)))]
        free = shuffled(free + things, rng)
    if rng.random() < .3:
        free.append('<light pos="0 0 3"/>')
    world = mixed([geom(v) for v in ev["tree"][0]["doc"]["vis"]], free, rng)
    attrs = [("angle", "degree" if degrees else "radian")] if not degrees or rng.random() < .5 else []
    return "<mujoco>%s<worldbody>%s</worldbody></mujoco>" % (element("compiler", attrs, "", rng) if attrs else "", "".join(world))
