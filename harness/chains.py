"""Replays behaviours of ChainSys into pytorch_kinematics."""
import copy, re, math, random
import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import frame as pkf
import pytorch_kinematics.transforms as tf
import base
from base import Mismatch
import documents
from ikrun import rot as turn, hom

DT = {"f32": torch.float32, "f64": torch.float64}
INF = float("inf")


def mat(flat):
    """13 integers of the specification -> 4x4 matrix"""
    d = flat[12]
    m = np.eye(4)
    m[:3, :3] = np.array(flat[:9], dtype=np.float64).reshape(3, 3) / d
    m[:3, 3] = np.array(flat[9:12], dtype=np.float64) / d
    return m


# ------------------------------------------------------------------ names
def _names(n, rng):
    scheme = rng.randrange(8)
    order = list(range(1, n + 1))
    if scheme == 0:
        f = {i: "link%d" % i for i in order}
        j = {i: "joint%d" % i for i in order}
        l = {i: "link%d" % i for i in order}
    elif scheme == 1:  # alphabetical order is the opposite of tree order
        f = {i: "f%03d" % (900 - i) for i in order}
        j = {i: "j%03d" % (900 - i) for i in order}
        l = {i: "l%03d" % (900 - i) for i in order}
    elif scheme == 2:  # every name is a prefix of the next
        f = {i: "a" * i for i in order}
        j = {i: "a" * i for i in order}
        l = {i: "a" * (n + 1 - i) for i in order}
    elif scheme == 3:  # joints named after other frames
        f = {i: "n%d" % i for i in order}
        j = {i: "n%d" % (n + 1 - i) for i in order}
        l = {i: "n%d" % (i % n + 1) for i in order}
    elif scheme == 4:
        perm = order[:]
        rng.shuffle(perm)
        f = {i: "frame %d/x" % perm[i - 1] for i in order}
        j = {i: "Joint-%d.y" % perm[-i] for i in order}
        l = {i: "link_%d" % perm[i - 1] for i in order}
    elif scheme == 5:
        f = {i: str(i) for i in order}
        j = {i: str(i * 10) for i in order}
        l = {i: str(-i) for i in order}
    elif scheme == 6:  # names that differ by blanks only
        f = {i: " " * (i % 3) + "x%d" % (i // 3) + " " * (i % 2) for i in order}
        j = {i: "y" + " " * i + "z" for i in order}
        l = {i: "%d " % i if i % 2 else "%d" % (i - 1) for i in order}
    else:
        f = {i: "base_link_%d_frame" % i for i in order}
        j = {i: "base_link_%d" % i for i in order}
        l = {i: "base_link_%d_frame" % (i * 7) for i in order}
    return f, j, l


class Names:
    def __init__(self, n, rng):
        self.frame, self.joint, self.link = _names(n, rng)
        self.fid = {v: k for k, v in self.frame.items()}
        self.jid = {v: k for k, v in self.joint.items()}


# ------------------------------------------------------------------ values
def joint_value(f, v):
    norm = math.sqrt(sum(x * x for x in f["ax"]))
    if f["jt"] == "R":
        a, k, m = v
        return 2 * math.atan2(k * norm, a) + 2 * math.pi * m
    return norm * v[0] / v[1]


def turned(Rm, m):
    """the transform m of a frame, after its parent's coordinates were turned"""
    out = m.copy()
    out[:3] = Rm @ m[:3]
    return out


def limit(x):
    return None if x == [] else tuple(v / 8 if abs(v) < documents.INFINITE else math.copysign(INF, v) for v in x)


def equal(got, want, fmt):
    """limits: exact, except where the loader converts degrees"""
    got = [float(x) for x in got]
    if fmt != "mjcf":
        return got == want
    return len(got) == len(want) and all(a == b or abs(a - b) < 1e-6 for a, b in zip(got, want))


class Robot:
    """A chain of the implementation next to the one of the specification."""

    def __init__(self, chain, dt, pr, ids, serial, joints):
        self.chain, self.dt, self.pr, self.ids, self.serial = chain, dt, pr, ids, serial
        self.joints = joints  # ids of moving joints
        self.fkt, self.jact = chain.forward_kinematics_tensor, getattr(chain, "jacobian_tensor", None)


PRINTED = re.compile("^((?:\u2502   |    )*)(\u251c\u2500\u2500 |\u2514\u2500\u2500 )(.*)$", re.S)


class World:
    def __init__(self, seed, opts):
        self.rng = random.Random(seed)
        self.opts = opts
        self.robots, self.frames, self.names = [], None, None
        self.handed = []   # results handed out, with copies
        self.count = {}
        self.results = {}  # event index -> comparable results
        self.spec = {}
        self.turns, self.left, self.unit, self.plain = {}, {}, 1., True

    # ------------------------------------------------ coordinates and units
    # The robot that is built may differ from the one of the specification by the unit of length and by the orientation
    # of the coordinates of each frame, which changes every offset and axis into arbitrary numbers, some of them tiny.
    # Results are turned back before they are compared.
    def choose(self, tree, rng, fixed=()):
        self.turns, self.left, self.unit = {}, {}, 1.
        if self.plain or rng.random() < .5:
            return
        self.unit = rng.choice((1., 1., 1., 1e-9, 1e-4, .01, 30., 1e3))
        share = rng.choice((.2, .5, 1.))
        for f in tree:
            if rng.random() < share and f["id"] not in fixed:
                ax = np.array([rng.gauss(0, 1) for _ in range(3)])
                a = rng.choice((rng.uniform(-3, 3), 10 ** -rng.uniform(1, 10), 10 ** -rng.uniform(1, 4)))
                self.turns[f["id"]] = turn(ax / np.linalg.norm(ax), a)
        self.tick("turned_robots")

    def turn_of(self, i):
        return self.turns.get(i, np.eye(3))

    def base(self, r):
        """how the coordinates of the poses of a chain are turned"""
        return self.turn_of(r.ids[0]) if r.serial else np.eye(3)

    def units(self, cols):
        return np.array([self.unit if self.frames[i]["jt"] == "P" else 1. for i in cols])

    def axis(self, i):
        ax = np.array(self.frames[i]["ax"], dtype=float)
        return self.turn_of(i) @ (ax / np.linalg.norm(ax))

    def back(self, m, base, ids):
        """poses (..., [frames,] 4, 4) in the coordinates and unit of the specification"""
        if not torch.is_tensor(m) or m.dim() < 2 or m.shape[-2:] != (4, 4) or not self.turns and self.unit == 1 or not m.numel():
            return m
        L, R = torch.eye(4, dtype=m.dtype), torch.eye(4, dtype=m.dtype).repeat(len(ids), 1, 1)
        L[:3, :3] = torch.tensor(base.T, dtype=m.dtype)
        for k, i in enumerate(ids):
            R[k, :3, :3] = torch.tensor(self.turn_of(i), dtype=m.dtype)
        D = torch.ones(4, 4, dtype=m.dtype)
        D[:3, 3] = 1 / self.unit
        return L @ (m * D) @ (R if len(ids) > 1 or m.dim() > 3 else R[0])

    def back_jacobian(self, J, r, cols):
        if not self.turns and self.unit == 1 or not torch.is_tensor(J) or J.dim() != 3 or J.shape[1:] != (6, len(cols)):
            return J
        R = torch.zeros(6, 6, dtype=J.dtype)
        R[:3, :3] = R[3:, 3:] = torch.tensor(self.base(r).T, dtype=J.dtype)
        D = torch.ones(6, len(cols), dtype=J.dtype)
        D[:3] = torch.tensor(self.units(cols) / self.unit, dtype=J.dtype)
        return R @ J * D

    # --------------------------------------------------- any other values
    def elsewhere(self, r, th, cols, rng):
        """values the specification has no numbers for: tiny ones, large ones, any; as the chain's precision holds them"""
        one = rng.randrange(len(cols)) if rng.random() < .4 else None
        new = th.copy()
        for j in range(len(cols)):
            if one is None or j == one:
                k = rng.randrange(6)
                u = self.units(cols)[j]
                new[j] = rng.choice((-1, 1)) * (10 ** -rng.uniform(0, 8) if k < 2 else rng.uniform(0, 7) if k < 4 else rng.uniform(0, 700) if k == 4 else 0.) * u
        return torch.tensor(new, dtype=DT[r.dt]).double().numpy()

    def motion(self, i, d):
        ax = np.array(self.frames[i]["ax"], dtype=float)
        ax /= np.linalg.norm(ax)
        return hom(turn(ax, d)) if self.frames[i]["jt"] == "R" else hom(t=ax * d)

    def moved_poses(self, T, ids, cols, d):
        """the poses after the joints have moved by d, from those before"""
        at, new, by = dict(zip(ids, T)), {}, dict(zip(cols, d))
        for k, i in enumerate(ids):
            par = self.frames[i]["par"]
            m = at[i] if k == 0 else new[par] @ np.linalg.inv(at[par]) @ at[i]
            new[i] = m @ self.motion(i, by[i]) if i in by else m
        return np.array([new[i] for i in ids])

    def moved_jacobian(self, J, T, cols, d):
        """the Jacobian and the pose of its point after the joints have moved by d, from those before"""
        J, T = J.copy(), T.copy()
        for j, i in enumerate(cols):
            z, v = J[3:, j].copy(), J[:3, j].copy()
            if self.frames[i]["jt"] == "R":
                Rm = turn(z, d[j])
                step = math.sin(d[j]) * v + (1 - math.cos(d[j])) * np.cross(z, v)
            else:
                Rm, step = np.eye(3), v * d[j]
            J[:3, :j + 1] += np.cross(J[3:, :j + 1].T, step).T
            J[:3, j + 1:], J[3:, j + 1:] = Rm @ J[:3, j + 1:], Rm @ J[3:, j + 1:]
            T[:3, :3] = Rm @ T[:3, :3]
            T[:3, 3] += step
        return J, T

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def top(self, k, v):
        self.count[k] = max(self.count.get(k, 0), v)

    # -------------------------------------------------------------- compare
    def tol(self, r):
        return 1e-11 if r.pr == "f64" else 1e-5

    def close(self, kind, got, want, r, scale=None, what=""):
        if not torch.is_tensor(got):
            raise Mismatch(kind, "%s: not a tensor: %r" % (what, type(got)))
        if got.dtype != DT[r.dt]:
            raise Mismatch("dtype", "%s: dtype %s of a chain in %s" % (what, got.dtype, r.dt))
        g = got.detach().cpu().numpy().astype(np.float64)
        want = np.asarray(want, dtype=np.float64)
        if g.shape != want.shape:
            raise Mismatch(kind, "%s: shape %s instead of %s" % (what, g.shape, want.shape))
        if g.size == 0:
            return
        if scale is None:
            scale = 1 + np.max(np.abs(want))
        with np.errstate(invalid="ignore"):
            err = np.abs(g - want) / scale
        worst = np.max(err) if np.all(np.isfinite(g)) else INF
        t = self.tol(r)
        if not worst <= t:
            at = np.unravel_index(np.nanargmax(np.where(np.isfinite(err), err, 1e300)), err.shape)
            raise Mismatch(kind, "%s: at %s got %r, the specification says %r (tolerance %g of scale %g)" % (
                what, tuple(int(x) for x in at), float(g[at]), float(want[at]), t, np.max(scale)))
        self.top("max_error_%s_x1e-12" % r.pr, int(worst * 1e12))

    def keep(self, x):
        if torch.is_tensor(x):
            self.handed.append((x, x.detach().clone()))

    def check_handed(self):
        for x, c in self.handed:
            y = x.detach()
            if y.shape != c.shape or y.dtype != c.dtype or not torch.equal(torch.nan_to_num(y), torch.nan_to_num(c)):
                raise Mismatch("stale", "a result handed out earlier has changed")

    # ---------------------------------------------------------------- build
    def load(self, ev):
        """from a document"""
        rng, tree, fmt = self.rng, ev["tree"], ev["format"]
        self.frames = {f["id"]: f for f in tree}
        self.names = nm = Names(len(tree), rng)
        self.format = fmt
        nm.link = dict(nm.frame)
        root = ev["root"]
        ids = [f["id"] for f in tree]
        if fmt == "mjcf":
            nm.frame[1] = nm.link[1] = "world"
            for f in tree:
                if f["jt"] == "F":
                    nm.joint[f["id"]] = None if f["doc"]["site"] else nm.frame[f["id"]] + "_fixed_joint"
            below = {root}
            for f in tree:
                if f["par"] in below:
                    below.add(f["id"])
            ids = [i for i in ids if i in below]
        self.choose(tree, rng, (1, next(f["par"] for f in tree if f["id"] == root)))
        if self.turns or self.unit != 1:
            ev = dict(ev, tree=[self.described(f, fmt, rng) for f in tree])
        joint_names = dict(nm.joint)
        self.text = text = getattr(documents, fmt)(ev, nm, rng)
        nm.joint[root] = None
        nm.fid = {v: k for k, v in nm.frame.items()}
        nm.jid = {v: k for k, v in nm.joint.items() if v is not None}
        self.event = ev
        self.joint_names = joint_names
        self.loader = {"urdf": pk.build_serial_chain_from_urdf, "sdf": pk.build_serial_chain_from_sdf,
                       "mjcf": pk.build_serial_chain_from_mjcf}[fmt]
        try:
            if fmt == "urdf":
                chain = pk.build_chain_from_urdf(text.encode() if text.startswith("<?xml") else text)
            elif fmt == "sdf":
                chain = pk.build_chain_from_sdf(text)
            elif root == 1:
                chain = pk.build_chain_from_mjcf(text) if rng.random() < .8 else pk.build_chain_from_mjcf(text, body=rng.choice((0, "world")))
            else:
                import mujoco
                body = nm.frame[root]
                if rng.random() < .4:
                    body = mujoco.MjModel.from_xml_string(text).body(body).id
                chain = pk.build_chain_from_mjcf(text, body)
        except Exception as e:
            raise Mismatch("load", "%r for\n%s" % (e, text))
        self.robots.append(Robot(chain, "f32", "f32", ids, False, [i for i in ids if self.frames[i]["jt"] != "F" and i != root]))
        self.tick("frames", len(tree))

    def described(self, f, fmt, rng):
        """what a document says of a frame in the unit and coordinates chosen"""
        i, d = f["id"], f["doc"]
        m = documents.matrix(d, fmt) @ hom(self.turn_of(i).T)
        if fmt != "sdf":   # poses are in the model frame there
            m = turned(self.turn_of(f["par"]), m)
        m[:3, 3] *= self.unit
        if fmt == "mjcf":
            self.left[i] = self.turn_of(i)
        elif f["par"]:
            self.left[i] = self.turn_of(f["par"])
        out = dict(f, doc=documents.rewritten(d, m, rng))
        if i in self.turns:
            out["ax"] = [float(x) for x in self.axis(i) * rng.choice((1, 1, 2.5, 400 if fmt != "mjcf" else 3))]
        vis = []
        for v in d.get("vis", ()):
            m = turned(self.turn_of(i), documents.matrix(dict(v, org=0, t=[0, 0, 0], rpy=[[1, 0]] * 3) if fmt == "sdf" and v["org"] == 0 else v, fmt))
            m[:3, 3] *= self.unit
            vis.append(documents.rewritten(v, m, rng))
        out["doc"]["vis"] = vis
        return out

    def build(self, ev):
        rng, dt = self.rng, DT[ev["dt"]]
        tree = ev["tree"]
        self.format = ev["format"]
        if self.format != "api":
            return self.load(ev)
        self.frames = {f["id"]: f for f in tree}
        self.names = nm = Names(len(tree), rng)
        how = ev["how"]
        made = {}
        self.choose(tree, rng)

        def offset(flat, ident):
            if isinstance(flat, list) and not flat:
                return tf.Transform3d(dtype=dt) if ident and rng.random() < 0.3 else None
            m = torch.tensor(mat(flat) if isinstance(flat, list) else flat, dtype=dt)
            style = rng.randrange(4) if how != 0 else 0
            if style == 0:
                return tf.Transform3d(matrix=m.unsqueeze(0) if rng.random() < .5 else m, dtype=dt)
            if style == 1:
                return tf.Transform3d(pos=m[:3, 3].clone(), rot=m[:3, :3].clone(), dtype=dt)
            if style == 2:
                return tf.Transform3d(pos=m[:3, 3].tolist() if False else m[:3, 3].clone().unsqueeze(0), rot=m[:3, :3].clone().unsqueeze(0), dtype=dt)
            return tf.Transform3d(pos=m[:3, 3].clone(), dtype=dt).compose(tf.Transform3d(rot=m[:3, :3].clone(), dtype=dt))

        for f in tree:
            i = f["id"]
            ax = [float(x) for x in f["ax"]]
            lo, jo = f["lo"], f["jo"]
            if self.unit != 1 or i in self.turns or f["par"] in self.turns:
                lo, jo = [None if o == [] else mat(o) for o in (lo, jo)]
                if i in self.turns:
                    ax = [float(x) for x in self.axis(i) * rng.choice((1, 1, 2.5, 1e-3, 400))]
                    m = hom(self.turn_of(i).T)
                    if jo is not None or lo is None or rng.random() < .3:
                        jo = m if jo is None else jo @ m
                    else:
                        lo = lo @ m
                        self.left[i] = self.turn_of(i)
                if f["par"] in self.turns:
                    m = hom(self.turn_of(f["par"]))
                    if lo is not None or jo is None or rng.random() < .3:
                        lo = m if lo is None else m @ lo
                    else:
                        jo = m @ jo
                        self.left[i] = self.turn_of(f["par"])
                for o in (lo, jo):
                    if o is not None:
                        o[:3, 3] *= self.unit
                lo, jo = [[] if o is None else o for o in (lo, jo)]
            if f["jt"] == "F" and how % 2:
                ax = None
            elif how == 2:
                ax = torch.tensor(ax, dtype=dt)
            elif how == 3:
                ax = tuple(ax)
            elif how == 4:
                ax = torch.tensor(ax, dtype=torch.float64)
            axis = dict(axis=ax)
            if i not in self.turns and f["ax"][:2] == [0, 0] and f["ax"][2] > 0 and rng.random() < .3:
                axis = rng.choice((dict(axis=None), {}))    # z unless said
            name = nm.joint[i]
            if f["par"] == 0 and f["jt"] == "F" and how in (0, 1, 2):
                name = None   # as the loaders do
            lim, vl, el = limit(f["lim"]), limit(f["vlim"]), limit(f["elim"])
            if how == 5:
                lim, vl, el = [list(x) if x is not None else None for x in (lim, vl, el)]
            joint = pkf.Joint(name, offset=offset(jo, True), joint_type={"F": "fixed", "R": "revolute", "P": "prismatic"}[f["jt"]],
                              **axis, dtype=dt, limits=lim, velocity_limits=vl, effort_limits=el)
            made[i] = pkf.Frame(nm.frame[i], link=pkf.Link(nm.link[i], offset=offset(lo, True)), joint=joint)
        if how in (0, 3, 5):
            for f in tree:
                if f["par"]:
                    made[f["par"]].add_child(made[f["id"]])
        else:
            for f in tree:
                made[f["id"]].children = [made[g["id"]] for g in tree if g["par"] == f["id"]]
        root = made[tree[0]["id"]]
        chain = pk.chain.Chain(root, dtype=dt) if not (dt == torch.float32 and how == 1) else pk.chain.Chain(root)
        self.robots.append(Robot(chain, ev["dt"], ev["dt"], [f["id"] for f in tree], False, [f["id"] for f in tree if f["jt"] != "F"]))
        self.tick("frames", len(tree))
        return None

    # -------------------------------------------------------- configurations
    def columns(self, r):
        """ids of the joints in the order of the tensor columns"""
        names = r.chain.get_joint_parameter_names()
        try:
            ids = [self.names.jid[n] for n in names]
        except KeyError as e:
            raise Mismatch("names", "unknown joint %s" % e)
        if sorted(ids) != sorted(r.joints):
            raise Mismatch("names", "joint names %s are not the moving joints of the chain" % names)
        return ids

    def theta(self, r, cfgs, cols):
        return np.array([[joint_value(self.frames[i], c[i - 1]) for i in cols] for c in cfgs], dtype=np.float64).reshape(len(cfgs), len(cols)) * self.units(cols)

    def pass_as(self, r, form, th, cols, rng):
        """th (B, n) in the given form; returns (argument, is a single configuration)"""
        style = rng.randrange(4)

        def plain(x):
            """a number of one of the kinds of numbers there are"""
            x = float(x)
            return int(x) if style == 0 and abs(x) < 1e6 and x == int(x) else np.float64(x) if style == 1 else x

        dt = DT[r.dt]
        B, n = th.shape
        names = [self.names.joint[i] for i in cols]
        single = {"t1": 1, "n1": 1, "list": 1, "dict_f": 1, "dict_t0": 1, "dict_rev": 1}
        if (form in single and B != 1) or (n == 0 and form.startswith(("dict", "list", "n"))):
            form = {"list": "n2", "n1": "n2", "dict_f": "dict_n1", "dict_t0": "dict_t1", "dict_rev": "dict_tN"}.get(form, "t2") if n else "t2"
        t = torch.tensor(th, dtype=dt)
        if form == "t2":
            return t, form
        if form == "t1":
            return t[0], form
        if form == "n2":
            return th.astype(np.float32 if r.dt == "f32" and rng.random() < .5 else np.float64), form
        if form == "n1":
            return th[0].copy(), form
        if form == "list":
            return [plain(x) for x in th[0]], form
        if form == "t2_strided":
            big = torch.full((2 * B, n + 3), 7.0, dtype=dt)
            v = big[::2, 1:n + 1]
            v.copy_(t)
            return v, form
        if form == "t2_f":
            return t.T.contiguous().T, form
        if form == "t2_expand":
            if B == 1 or B > 1 and np.all(th == th[0]):
                return t[:1].expand(B, n), form
            return t, form
        if form == "t2_grad":
            return t.requires_grad_(True), form
        ks = list(range(n))
        if form == "dict_rev":
            ks.reverse()
        elif form in ("dict_tN", "dict_t0", "dict_n1", "dict_t1", "dict_c1"):
            rng.shuffle(ks)
        if form in ("dict_f", "dict_rev"):
            return {names[k]: plain(th[0, k]) for k in ks}, form
        if form == "dict_t0":
            return {names[k]: torch.tensor(th[0, k], dtype=dt) for k in ks}, form
        if form in ("dict_t1", "dict_tN"):
            return {names[k]: t[:, k].clone() if form == "dict_t1" else t[:, k] for k in ks}, form
        if form == "dict_n1":
            return {names[k]: th[:, k].copy() for k in ks}, form
        if form == "dict_c1":    # (columns)
            if rng.random() < .3:
                return {names[k]: th[:, k:k + 1].copy() for k in ks}, form
            return {names[k]: t[:, k:k + 1].clone() for k in ks}, form
        raise AssertionError(form)

    @staticmethod
    def layout(lay, K, rng):
        """row -> configuration"""
        if lay == "each":
            return [list(range(K))]
        if lay == "rev":
            return [list(range(K))[::-1]]
        if lay == "once":
            return [[i] for i in range(K)]
        if lay == "none":
            return [[]]
        n = int(lay[4:])
        if n > 1000 and rng.random() < .2:
            n = rng.choice((4097, 10001, 20011))
        rows = [i % K for i in range(n)]
        if rng.random() < .5:
            rng.shuffle(rows)
        return [rows]

    @staticmethod
    def snapshot(x):
        if torch.is_tensor(x):
            return ("t", x.detach().clone(), x.dtype, x.requires_grad)
        if isinstance(x, np.ndarray):
            return ("n", x.copy())
        if isinstance(x, dict):
            return ("d", [(k, World.snapshot(v)) for k, v in x.items()])
        if isinstance(x, (list, tuple)):
            return ("l", [World.snapshot(v) for v in x])
        if isinstance(x, tf.Transform3d):
            return ("T", x.get_matrix().detach().clone())
        return ("v", x)

    @staticmethod
    def same(x, s):
        if torch.is_tensor(x):
            return s[0] == "t" and x.dtype == s[2] and x.requires_grad == s[3] and torch.equal(x.detach(), s[1])
        if isinstance(x, np.ndarray):
            return s[0] == "n" and np.array_equal(x, s[1])
        if isinstance(x, dict):
            return s[0] == "d" and list(x.keys()) == [k for k, _ in s[1]] and all(World.same(x[k], v) for k, v in s[1])
        if isinstance(x, (list, tuple)):
            return s[0] == "l" and len(x) == len(s[1]) and all(World.same(a, b) for a, b in zip(x, s[1]))
        if isinstance(x, tf.Transform3d):
            return s[0] == "T" and torch.equal(x.get_matrix(), s[1])
        return s[0] == "v" and (x == s[1] or x is s[1])

    def call(self, fn, *args, **kw):
        before = [self.snapshot(a) for a in args] + [self.snapshot(v) for v in kw.values()]
        out = fn(*args, **kw)
        for a, b in zip(list(args) + list(kw.values()), before):
            if not self.same(a, b):
                raise Mismatch("mutation", "%s modified an argument" % getattr(fn, "__name__", fn))
        return out

    # ------------------------------------------------------------------ ops
    def fk(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, cols = r.chain, self.columns(r)
        K = len(ev["cfgs"])
        th_all = self.theta(r, ev["cfgs"], cols)
        exp = np.array([[mat(p) for p in e] for e in ev["exp"]])   # K, frames, 4, 4
        ids = ev["ids"]
        out = []
        for rows in self.layout(ev["lay"], K, rng):
            th, want = th_all[rows], exp[rows]
            scale = 1 + np.max(np.abs(want), initial=0)
            x, form = self.pass_as(r, ev["form"], th, cols, rng)
            self.tick("form_" + form)
            tensor_in = torch.is_tensor(x) and x.dim() == 2
            sub = ev["sub"]
            what = "fk form=%s rows=%d sub=%d serial=%s dtype=%s" % (form, len(rows), sub, r.serial, r.dt)
            if sub == 2 and not tensor_in:
                sub = 1
            if sub == 2:
                m = self.call(r.fkt, x)
                self.keep(m)
                if m.dim() != 4 or m.shape[0] != len(ids):
                    raise Mismatch("fk", "%s: shape %s" % (what, tuple(m.shape)))
                order = [chain.frame_to_idx[self.names.frame[i]] for i in ids]
                self.close("fk", self.back(m[order].transpose(0, 1), self.base(r), ids), want, r, scale, what)
                out.append(m.detach())
            elif r.serial:
                end_only = sub == 0
                res = self.call(chain.forward_kinematics, x) if end_only and rng.random() < .5 else \
                    self.call(chain.forward_kinematics, x, end_only=end_only)
                if end_only:
                    m = res.get_matrix()
                    self.keep(m)
                    self.close("fk", self.back(m, self.base(r), ids[-1:]), want[:, -1], r, scale, what)
                    out.append(m.detach())
                else:
                    out += self.by_name(res, ids, want, r, scale, what)
            else:
                sel = list(range(len(ids)))
                if sub == 0:
                    res = self.call(chain.forward_kinematics, x)
                else:
                    sr = random.Random(ev["subsel"])
                    sel = sr.sample(sel, 1 + sr.randrange(len(sel)))
                    idx = chain.get_frame_indices(*[self.names.frame[ids[k]] for k in sel])
                    res = self.call(chain.forward_kinematics, x, idx) if sr.random() < .5 else \
                        self.call(chain.forward_kinematics, x, frame_indices=idx)
                out += self.by_name(res, [ids[k] for k in sel], want[:, sel], r, scale, what)
            self.tick("poses", want.shape[0] * want.shape[1])
        if K and cols and rng.random() < .4:
            self.fk_elsewhere(r, th_all, exp, ids, cols, ev, rng)
        return out

    def fk_elsewhere(self, r, th_all, exp, ids, cols, ev, rng):
        rows = [rng.randrange(len(th_all)) for _ in range(rng.choice((1, 2, 5)))]
        th = np.array([self.elsewhere(r, th_all[k], cols, rng) for k in rows])
        want = np.array([self.moved_poses(exp[k], ids, cols, (t - th_all[k]) / self.units(cols)) for k, t in zip(rows, th)])
        x, form = self.pass_as(r, ev["form"], th, cols, rng)
        if torch.is_tensor(x) and x.dim() == 2:
            m = self.call(r.fkt, x)[[r.chain.frame_to_idx[self.names.frame[i]] for i in ids]].transpose(0, 1)
            self.close("fk", self.back(m, self.base(r), ids), want, r, 1 + np.max(np.abs(want)), "fk at %s form=%s dtype=%s" % (th.tolist(), form, r.dt))
        else:
            res = self.call(r.chain.forward_kinematics, x, **(dict(end_only=False) if r.serial else {}))
            self.by_name(res, ids, want, r, 1 + np.max(np.abs(want)), "fk at %s form=%s dtype=%s" % (th.tolist(), form, r.dt))
        self.tick("poses_elsewhere", want.shape[0] * want.shape[1])

    def by_name(self, res, ids, want, r, scale, what):
        names = [self.names.frame[i] for i in ids]
        if sorted(res.keys()) != sorted(names):
            raise Mismatch("frames", "%s: poses of %s instead of %s" % (what, sorted(res.keys()), sorted(names)))
        out = []
        for k, n in enumerate(names):
            m = res[n].get_matrix()
            self.keep(m)
            self.close("fk", self.back(m, self.base(r), ids[k:k + 1]), want[:, k], r, scale, what + " frame %s" % n)
            out.append(m.detach())
        return out

    def frame(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        out = []
        for k, i in enumerate(ev["ids"]):
            f = self.frames[i]
            jt = "F" if r.serial and k == 0 else f["jt"]
            fr = r.chain.find_frame(self.names.frame[i])
            vals = [joint_value(f, c[i - 1]) * self.units([i])[0] if jt != "F" else 0.7 for c in ev["cfgs"]]
            th = torch.tensor(vals, dtype=DT[r.dt])
            m = self.call(fr.get_transform, th).get_matrix()
            want = np.array([mat(e[k]) for e in ev["exp"]])
            if m.shape[0] == 1 and want.shape[0] > 1 and jt == "F":
                m = m.expand(want.shape[0], 4, 4)
            self.keep(m)
            # (the transform of a frame alone leaves out the offset of its link)
            above = self.turn_of(i) if r.serial and k == 0 else self.left.get(i, np.eye(3))
            self.close("frame", self.back(m, above, [i]), want, r, None, "transform of frame %s" % fr.name)
            out.append(m.detach())
        return out

    def extract(self, ev, rng, again=False):
        r = self.robots[ev["ch"] - 1]
        n = self.names.frame
        if self.format != "api" and r is self.robots[0] and r.dt == "f32" and (self.format != "mjcf" or r.ids[0] == 1) and rng.random() < .5:
            self.tick("serial_loaded")
            if ev["implicit"]:
                c = self.loader(self.text, n[ev["end"]])
            elif rng.random() < .5:
                c = self.loader(self.text, n[ev["end"]], n[ev["root"]])
            else:
                c = self.loader(self.text, end_link_name=n[ev["end"]], root_link_name=n[ev["root"]])
        elif ev["implicit"]:
            c = pk.chain.SerialChain(r.chain, n[ev["end"]])
        elif rng.random() < .5:
            c = pk.chain.SerialChain(r.chain, n[ev["end"]], n[ev["root"]])
        else:
            c = pk.chain.SerialChain(r.chain, n[ev["end"]], root_frame_name=n[ev["root"]])
        x = Robot(c, r.dt, r.pr, ev["ids"], True, ev["joints"])
        if [self.names.jid.get(j) for j in c.get_joint_parameter_names()] != ev["joints"]:
            raise Mismatch("extract", "joints %s from %s to %s" % (c.get_joint_parameter_names(), n[ev["root"]], n[ev["end"]]))
        if [self.names.fid.get(j) for j in c.get_frame_names(exclude_fixed=False)] != ev["ids"]:
            raise Mismatch("extract", "frames %s from %s to %s" % (c.get_frame_names(exclude_fixed=False), n[ev["root"]], n[ev["end"]]))
        if c.dtype != DT[r.dt]:
            raise Mismatch("dtype", "serial chain in %s extracted from a chain in %s" % (c.dtype, r.dt))
        if not again:
            self.robots.append(x)
            self.tick("extracted")
        return []

    def to(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        style = rng.randrange(3)
        dt = DT[ev["dt"]]
        ret = r.chain.to(dtype=dt) if style == 0 else r.chain.to(dtype=dt, device="cpu") if style == 1 else r.chain.to(dt)
        if ret is not None and ret is not r.chain:
            raise Mismatch("to", "to() returned something else than the chain")
        r.dt, r.pr = ev["dt"], ev["pr"]
        return []

    def jac(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, cols = r.chain, self.columns(r)
        K, n = len(ev["cfgs"]), len(cols)
        th_all = self.theta(r, ev["cfgs"], cols)
        J = np.zeros((K, 6, n))
        for k in range(K):
            got = {c[0]: c for c in ev["cols"][k]}
            for j, i in enumerate(cols):
                c = got[i]
                nrm = math.sqrt(c[9])
                J[k, :3, j] = np.array(c[1:4]) / c[4] / nrm
                J[k, 3:, j] = np.array(c[5:8]) / c[8] / nrm
        pose = np.array([mat(p) for p in ev["pose"]])
        end = self.turn_of(r.ids[-1])
        pose[:, :3, :3] = pose[:, :3, :3] @ end.T
        spots = [([0., 0., 0.] if t == [] else [x / t[1] for x in t[0]]) for t in ev["tools"]]
        tools = [[float(x) for x in end @ t * self.unit] for t in spots] if self.turns or self.unit != 1 else spots
        no_tool = all(t == [] for t in ev["tools"])
        one = all(t == tools[0] for t in tools)
        call, dt = ev["call"], DT[r.dt]
        out = []
        for rows in self.layout(ev["lay"], K, rng):
            th, wJ, wp = th_all[rows], J[rows], pose[rows].copy()
            x, form = self.pass_as(r, ev["form"], th, cols, rng)
            B = len(rows)
            rot = None
            if no_tool:
                loc = None
            else:
                # (a batch of no transforms does not exist)
                t = torch.tensor([tools[k] for k in rows or [0]], dtype=dt if call % 5 else torch.float32 if r.pr == "f32" else torch.float64)
                one_row = one and call % 3 != 0 or not rows
                t = t[0] if one_row and call % 2 else t[:1] if one_row else t
                if call % 4 == 1:
                    loc = tf.Transform3d(pos=t, dtype=t.dtype)
                elif call % 4 == 2:
                    rot = np.array([[0., -1, 0], [.6, 0, -.8], [.8, 0, .6]])
                    R = torch.tensor(rot, dtype=t.dtype)
                    loc = tf.Transform3d(pos=t, rot=R if t.dim() == 1 else R.repeat(t.shape[0], 1, 1), dtype=t.dtype)
                    wp[:, :3, :3] = wp[:, :3, :3] @ rot
                else:
                    # plain locations become a Transform3d of default precision inside
                    loc = t
            want_pose = (call // 4) % 2 == 1
            scale = 1 + max(np.max(np.abs(wJ), initial=0), np.max(np.abs(wp), initial=0), np.max(np.abs(spots)))
            what = "jacobian form=%s rows=%d tool=%s pose=%s dtype=%s" % (form, B, None if loc is None else type(loc).__name__, want_pose, r.dt)
            if loc is None and call % 3 == 0 and torch.is_tensor(x) and x.dim() == 2:
                kw = {}
                if call % 2:
                    kw["all_transforms"] = r.fkt(x)
                res = self.call(r.jact, x, ret_eef_pose=want_pose, **kw)
                what += " (jacobian_tensor)"
            else:
                kw = {}
                if loc is not None:
                    kw["locations"] = loc
                if want_pose:
                    kw["ret_eef_pose"] = True
                res = self.call(chain.jacobian, x, **kw)
            Jg = res
            if want_pose:
                Jg, pg = res
                self.keep(pg)
                self.close("eef pose", self.back(pg, self.base(r), [0]), wp, r, scale, what)
                out.append(pg.detach())
            self.keep(Jg)
            self.close("jacobian", self.back_jacobian(Jg, r, cols), wJ, r, scale, what)
            out.append(Jg.detach())
            if B and n and r.jact == getattr(chain, "jacobian_tensor", None) and rng.random() < .3:
                self.jac_elsewhere(r, th, loc, wJ, wp, cols, ev, scale, rng)
            if self.opts.get("by_location") and loc is not None and B:
                self.by_location(r, x, loc, rot, kw, wJ, wp, scale, what, rng)
            self.tick("jacobians", B)
        return out

    def jac_elsewhere(self, r, th, loc, wJ, wp, cols, ev, scale, rng):
        few = 1 if loc is None or not torch.is_tensor(loc) and len(loc) == 1 or torch.is_tensor(loc) and (loc.dim() == 1 or len(loc) == 1) else 0
        rows = [rng.randrange(len(th)) for _ in range(rng.choice((1, 3)))] if few else list(range(len(th)))
        if len(rows) > 10:
            return
        new = np.array([self.elsewhere(r, th[k], cols, rng) for k in rows])
        got = [self.moved_jacobian(wJ[k], wp[k], cols, (t - th[k]) / self.units(cols)) for k, t in zip(rows, new)]
        x, form = self.pass_as(r, ev["form"], new, cols, rng)
        kw = {} if loc is None else dict(locations=loc)
        J, pose = self.call(r.chain.jacobian, x, ret_eef_pose=True, **kw)
        J2 = self.call(r.chain.jacobian, x, **kw)
        what = "jacobian at %s form=%s tool=%s dtype=%s" % (new.tolist(), form, None if loc is None else type(loc).__name__, r.dt)
        scale += max(np.max(np.abs(j)) + np.max(np.abs(t)) for j, t in got)
        for x in (J, J2):
            self.close("jacobian", self.back_jacobian(x, r, cols), np.array([j for j, _ in got]), r, scale, what)
        self.close("eef pose", self.back(pose, self.base(r), [0]), np.array([t for _, t in got]), r, scale, what)
        self.tick("jacobians_elsewhere", len(rows))

    def by_location(self, r, x, loc, rot, kw, wJ, wp, scale, what, rng):
        """Moving the tool point changes each column of a turning joint by the angular part times the movement."""
        pos = (loc.get_matrix()[:, :3, 3] if isinstance(loc, tf.Transform3d) else loc).detach().clone().requires_grad_()
        p, kw = pos, dict(kw)
        if isinstance(loc, tf.Transform3d):
            m = loc.get_matrix().detach().clone()
            m[:, :3, 3] = pos
            p = tf.Transform3d(matrix=m)
        kw["locations"] = p
        res = r.chain.jacobian(x, **kw)
        J, pose = res if isinstance(res, tuple) else (res, None)
        w = np.array([rng.randrange(-8, 9) / 4 for _ in range(wJ.size)]).reshape(wJ.shape)
        loss = (torch.tensor(w, dtype=J.dtype) * J).sum()
        B = self.base(r)
        wJ, wp = wJ.copy(), wp.copy()
        wJ[:, :3], wJ[:, 3:], wp[:, :3, :3] = B @ wJ[:, :3], B @ wJ[:, 3:], B @ wp[:, :3, :3]
        R = wp[:, :3, :3] if rot is None else wp[:, :3, :3] @ rot.T
        force = np.cross(np.swapaxes(w[:, :3], 1, 2), np.swapaxes(wJ[:, 3:], 1, 2)).sum(1)     # (B, 3)
        if pose is not None:
            v = np.array([rng.randrange(-8, 9) / 4 for _ in range(3 * len(R))]).reshape(-1, 3)
            loss = loss + (torch.tensor(v, dtype=J.dtype) * pose[:, :3, 3]).sum()
            force = force + v
        want = np.einsum("bij,bi->bj", R, force)
        g = None
        if loss.requires_grad:
            g, = torch.autograd.grad(loss, pos, allow_unused=True)
        g = (torch.zeros_like(pos) if g is None else g).to(J.dtype)
        if len(want) > 1 and (pos.dim() == 1 or len(pos) == 1):
            want = want.sum(0, keepdims=True)
        self.close("gradient by location", g.reshape(want.shape), want, r, 1 + np.max(np.abs(want)) + scale * len(wJ), what)
        self.tick("gradients_by_location", g.numel())

    def ikstep(self, ev, rng):
        import iksolve
        return iksolve.ikstep(self, ev, rng, mat)

    def iksolve(self, ev, rng):
        import iksolve
        return iksolve.iksolve(self, ev, rng, mat, limit)

    def grad(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, cols = r.chain, self.columns(r)
        K, n = len(ev["cfgs"]), len(cols)
        dt = DT[r.dt]
        th_all = self.theta(r, ev["cfgs"], cols)
        G = np.zeros((K, n))
        for k in range(K):
            got = {e[0]: e for e in ev["exp"][k]}
            for j, i in enumerate(cols):
                G[k, j] = sum(a / b for a, b in got[i][2]) / math.sqrt(got[i][1])
        W = torch.zeros(len(ev["sel"]), 4, 4, dtype=dt)
        for s, w in enumerate(ev["ws"]):
            W[s, :3, :3] = torch.tensor(w[:9], dtype=dt).reshape(3, 3)
            W[s, :3, 3] = torch.tensor(w[9:], dtype=dt)
        names = [self.names.frame[i] for i in ev["sel"]]
        out = []
        for rows in self.layout(ev["lay"], K, rng):
            B = len(rows)
            # every row has its own weight on the loss, so that rows cannot be mixed up
            rw = torch.tensor([1 + (k % 5) for k in range(B)], dtype=dt)
            th = torch.tensor(th_all[rows], dtype=dt).requires_grad_(True)
            want = G[rows] * rw.numpy().astype(float)[:, None]
            mode = ev["mode"]
            what = "gradient mode=%d rows=%d frames=%s dtype=%s serial=%s" % (mode, B, names, r.dt, r.serial)
            if mode == 0:
                res = chain.forward_kinematics(th, end_only=False) if r.serial else chain.forward_kinematics(th)
                ms = [res[x].get_matrix() for x in names]
            elif mode == 1:
                m = r.fkt(th)
                ms = [m[chain.frame_to_idx[x]] for x in names]
            else:
                m = r.fkt(th, analytical_grad=False)
                ms = [m[chain.frame_to_idx[x]] for x in names]
            if n == 0:
                continue
            ms = [self.back(m_, self.base(r), [i]) for m_, i in zip(ms, ev["sel"])]
            loss = sum((w * m_ * rw[:, None, None]).sum() for w, m_ in zip(W, ms))
            mag = rng.choice((1., 1., 1., 1., 1e-9, 1e5))
            loss = loss * mag
            if rng.random() < .3 and loss.requires_grad:
                # several backward passes add up
                (loss / 2).backward(retain_graph=True)
                (loss / 2).backward()
            else:
                loss.backward()
            g = th.grad
            if g is None:
                g = torch.zeros_like(th)
            g = g / mag
            scale = 5 * (10 + np.max(np.abs(want), initial=0) + 3 * sum(float(m_.detach().abs().max()) for m_ in ms if m_.numel()))
            self.close("gradient", g * torch.tensor(self.units(cols), dtype=dt), want, r, scale, what)
            self.tick("gradients", B)
            out.append(g.clone())
        if n and rng.random() < .4:
            self.grad_elsewhere(r, ev, th_all, W, cols, rng)
        return out

    def grad_elsewhere(self, r, ev, th_all, W, cols, rng):
        """by what moving each joint does to the poses below it, at any values"""
        dt, mode = DT[r.dt], ev["mode"]
        rows = [rng.randrange(len(th_all)) for _ in range(rng.choice((1, 3)))]
        th = torch.tensor(np.array([self.elsewhere(r, th_all[k], cols, rng) for k in rows]), dtype=dt).requires_grad_(True)
        m = r.fkt(th) if mode < 2 else r.fkt(th, analytical_grad=False)
        at = lambda i: r.chain.frame_to_idx[self.names.frame[i]]
        sum((w * m[at(i)]).sum() for w, i in zip(W, ev["sel"])).backward()
        g = th.grad if th.grad is not None else torch.zeros_like(th)
        T, want, W = m.detach().double().numpy(), np.zeros(th.shape), W.double().numpy()
        for w, i in zip(W, ev["sel"]):
            k = i
            while True:
                if k in cols:
                    R, p = T[at(k)][:, :3, :3], T[at(k)][:, :3, 3]
                    z = R @ self.axis(k)
                    if self.frames[k]["jt"] == "R":
                        d = np.cross(z[:, :, None], T[at(i)][:, :3, :3], axis=1)
                        v = np.cross(z, T[at(i)][:, :3, 3] - p)
                    else:
                        d, v = np.zeros(R.shape), z
                    want[:, cols.index(k)] += (w[:3, :3] * d).sum((1, 2)) + v @ w[:3, 3]
                if k == r.ids[0]:
                    break
                k = self.frames[k]["par"]
        u = np.array([1. if self.frames[i]["jt"] == "P" else max(1, self.unit) for i in cols])
        scale = 5 * (10 + np.max(np.abs(want / u)) + 3 * len(W) * max(1, np.max(np.abs(T)) / max(1, self.unit)))
        self.close("gradient", g / torch.tensor(u, dtype=dt), want / u, r, scale, "gradient at %s mode=%d dtype=%s" % (th.tolist(), mode, r.dt))
        self.tick("gradients_elsewhere", len(rows))

    def weights(self, ev, dt):
        W = torch.zeros(len(ev["sel"]), 4, 4, dtype=dt)
        for s, w in enumerate(ev["ws"]):
            W[s, :3, :3] = torch.tensor(w[:9], dtype=dt).reshape(3, 3)
            W[s, :3, 3] = torch.tensor(w[9:], dtype=dt)
        return W

    def hess(self, ev, rng):
        """second derivatives by plain automatic differentiation"""
        r = self.robots[ev["ch"] - 1]
        chain, cols, dt = r.chain, self.columns(r), DT[r.dt]
        n = len(cols)
        th_all = self.theta(r, ev["cfgs"], cols)
        H, size = np.zeros((len(ev["cfgs"]), n, n)), 1.0
        for k, rows in enumerate(ev["exp"]):
            for row in rows:
                for a, b, na, nb, terms in row:
                    i, j = cols.index(a), cols.index(b)
                    H[k, i, j] = H[k, j, i] = sum(x / y for x, y in terms) / math.sqrt(na * nb)
        if n == 0:
            return []
        W = self.weights(ev, dt)
        names = [self.names.frame[i] for i in ev["sel"]]
        out = []
        for rows in self.layout(ev["lay"], len(ev["cfgs"]), rng):
            B = len(rows)
            rw = torch.tensor([1 + (k % 5) for k in range(B)], dtype=dt)
            th = torch.tensor(th_all[rows], dtype=dt).requires_grad_(True)
            f = lambda x: chain.forward_kinematics_tensor(x, analytical_grad=False)
            at = lambda x, i: self.back(f(x)[chain.frame_to_idx[self.names.frame[i]]], self.base(r), [i])
            loss = lambda x: sum((w * at(x, i) * rw[:, None, None]).sum() for w, i in zip(W, ev["sel"]))
            u = torch.tensor(self.units(cols), dtype=dt)
            want = H[rows] * rw.numpy().astype(float)[:, None, None]
            what = "second derivative mode=%d rows=%d frames=%s dtype=%s serial=%s" % (ev["mode"], B, names, r.dt, r.serial)
            if ev["mode"] < 4 or not rows:
                v = torch.tensor([[rng.randrange(-3, 4) for _ in range(n)] for _ in range(B)], dtype=dt).reshape(B, n)
                g, = torch.autograd.grad(loss(th), th, create_graph=True)
                hv = torch.autograd.grad((g * v * u).sum(), th)[0] * u if g.requires_grad else torch.zeros_like(th)
                got, want = hv, np.einsum("bij,bj->bi", want, v.numpy().astype(float))
            else:
                got = torch.autograd.functional.hessian(loss, th.detach()) * u[None, :, None, None] * u
                full = np.zeros((B, n, B, n))
                for b in range(B):
                    full[b, :, b] = want[b]
                want = full
            size = 5 * (10 + np.max(np.abs(want), initial=0) + 9 * max(f(th.detach()).abs().flatten().tolist() + [0]) / min(1, self.unit)) * 5
            self.close("second derivative", got, want, r, size, what)
            self.tick("second_derivatives", B)
            out.append(got.detach().clone())
        return out

    def jacgrad(self, ev, rng):
        """derivatives of the Jacobian"""
        r = self.robots[ev["ch"] - 1]
        chain, cols, dt = r.chain, self.columns(r), DT[r.dt]
        n = len(cols)
        th_all = self.theta(r, ev["cfgs"], cols)
        if n == 0:
            return []
        G = np.zeros((len(ev["cfgs"]), n))
        for k, rows in enumerate(ev["exp"]):
            for i, na, terms in rows:
                G[k, cols.index(i)] = sum((a / b + c / d) / math.sqrt(nb) for a, b, c, d, nb in terms) / math.sqrt(na)
        W = torch.zeros(6, n, dtype=dt)
        for w in ev["ws"]:
            if w[0] in cols:
                W[:, cols.index(w[0])] = torch.tensor(w[1:], dtype=dt)
        end = self.turn_of(r.ids[-1])
        tools = [([0., 0., 0.] if t == [] else [float(y) for y in end @ [x / t[1] for x in t[0]] * self.unit]) for t in ev["tools"]]
        no_tool = all(t == [] for t in ev["tools"])
        call, out = ev["call"], []
        for rows in self.layout(ev["lay"], len(ev["cfgs"]), rng):
            B = len(rows)
            rw = torch.tensor([1 + (k % 5) for k in range(B)], dtype=dt)
            th = torch.tensor(th_all[rows], dtype=dt).requires_grad_(True)
            x = th[0] if B == 1 and call % 7 == 1 else th
            what = "derivative of the Jacobian call=%d rows=%d dtype=%s" % (call, B, r.dt)
            if not no_tool:
                t = torch.tensor([tools[k] for k in rows or [0]], dtype=dt)
                J = self.call(chain.jacobian, x, locations=t if call % 2 else tf.Transform3d(pos=t, dtype=dt))
            elif call % 4 == 0:
                J = self.call(r.jact, x if x.dim() == 2 else x[None])
            elif call % 4 == 1:
                J = r.jact(th, all_transforms=r.fkt(th, analytical_grad=bool(call % 3)))
            elif call % 4 == 2:
                J, pose = self.call(chain.jacobian, x, ret_eef_pose=True)
            else:
                J = self.call(chain.jacobian, x)
            want = G[rows] * rw.numpy().astype(float)[:, None]
            J = self.back_jacobian(J, r, cols)
            (J * W * rw[:, None, None]).sum().backward()
            size = 5 * (10 + np.max(np.abs(want), initial=0) + 9 * n * max(J.detach().abs().flatten().tolist() + [0])) * 5
            g = (th.grad if th.grad is not None else torch.zeros_like(th)) * torch.tensor(self.units(cols), dtype=dt)
            self.close("derivative of the Jacobian", g, want, r, size, what)
            self.tick("jacobian_derivatives", B)
            out.append(g.clone())
        return out

    def param(self, ev, rng):
        """derivative by the offset of a frame, in a robot built for the purpose"""
        dt = DT[ev["dt"]]
        t = torch.zeros((), dtype=dt, requires_grad=True)
        E = np.zeros((4, 4))
        E[:3, :3] = np.array(ev["dir"][:9]).reshape(3, 3)
        E[:3, 3] = ev["dir"][9:]
        E, made, nm = torch.tensor(E, dtype=dt), {}, self.names

        def offset(f, which):
            here = f["id"] == ev["frame"] and which == ev["which"]
            if f[which] == [] and not here:
                return None
            m = torch.tensor(mat(f[which]) if f[which] != [] else np.eye(4), dtype=dt)
            return tf.Transform3d(matrix=m + t * E if here else m, dtype=dt)

        for f in self.frames.values():
            made[f["id"]] = pkf.Frame(nm.frame[f["id"]], link=pkf.Link(nm.link[f["id"]], offset=offset(f, "lo")), joint=pkf.Joint(
                nm.joint[f["id"]], offset=offset(f, "jo"), joint_type={"F": "fixed", "R": "revolute", "P": "prismatic"}[f["jt"]],
                axis=[float(x) for x in f["ax"]], dtype=dt))
            if f["par"]:
                made[f["par"]].add_child(made[f["id"]])
        root = [f["id"] for f in self.frames.values() if not f["par"]][0]
        r = Robot(pk.chain.Chain(made[root], dtype=dt), ev["dt"], ev["dt"], [f["id"] for f in self.frames.values()], False,
                  [f["id"] for f in self.frames.values() if f["jt"] != "F"])
        cols = self.columns(r)
        th = torch.tensor(self.theta(r, ev["cfgs"], cols), dtype=dt)
        B = th.shape[0]
        rw = torch.tensor([1 + (k % 5) for k in range(B)], dtype=dt)
        W = self.weights(ev, dt)
        mode = ev["mode"]
        if mode % 3 == 0:
            ms = r.chain.forward_kinematics_tensor(th)
        elif mode % 3 == 1:
            ms = r.chain.forward_kinematics_tensor(th.requires_grad_(mode > 2), analytical_grad=False)
        else:
            res = r.chain.forward_kinematics(th)
            ms = None
        ms = [ms[r.chain.frame_to_idx[nm.frame[i]]] if ms is not None else res[nm.frame[i]].get_matrix() for i in ev["sel"]]
        loss = sum((w * m * rw[:, None, None]).sum() for w, m in zip(W, ms))
        want = sum(float(rw[k]) * sum(a / b for a, b in e) for k, e in enumerate(ev["exp"]))
        if loss.requires_grad:
            loss.backward()
        g = t.grad if t.grad is not None else torch.zeros_like(t)
        size = 5 * (10 + abs(want) + 9 * sum(float(m.detach().abs().max()) for m in ms)) * 5
        self.close("derivative by an offset", g, np.array(want), r, size, "%s of %s mode=%d dtype=%s" % (ev["which"], nm.frame[ev["frame"]], mode, ev["dt"]))
        self.tick("parameter_derivatives")
        return []

    def limits(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, cols = r.chain, self.columns(r)
        exp = {i: ev["exp"][str(i)] if isinstance(ev["exp"], dict) else ev["exp"][i - 1] for i in cols} if cols else {}
        for k, fn in enumerate((chain.get_joint_limits, chain.get_joint_velocity_limits, chain.get_joint_effort_limits)):
            low, high = fn()
            want = [limit(exp[i][k]) or (-INF, INF) for i in cols]
            if not equal(low, [w[0] for w in want], self.format) or not equal(high, [w[1] for w in want], self.format):
                raise Mismatch("limits", "%s: %s / %s instead of %s" % (fn.__name__, low, high, want))
            if k == 0:
                for t, w in ((chain.low, [x[0] for x in want]), (chain.high, [x[1] for x in want])):
                    if t.dtype != DT[r.dt] or not equal(t, w, self.format):
                        raise Mismatch("limits", "low/high tensor %s instead of %s in %s" % (t, w, r.dt))
        self.tick("limits", len(cols))
        return []

    def clamp(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, cols = r.chain, self.columns(r)
        order = [ev["ids"].index(i) for i in cols]
        th = np.array(ev["rows"], dtype=np.float64).reshape(len(ev["rows"]), len(cols))[:, order] / 8
        want = np.array(ev["exp"], dtype=np.float64).reshape(len(ev["rows"]), len(cols))[:, order] / 8
        x, form = self.pass_as(r, ev["form"], th, cols, rng)
        got = self.call(chain.clamp, x)
        single = form in ("t1", "n1", "list", "dict_f", "dict_t0", "dict_rev")
        self.keep(got)
        scale = 1e-9 if self.format != "mjcf" else 1
        self.close("clamp", got, want[0] if single else want, r, scale, "clamp form=%s" % form)
        self.close("clamp", chain.clamp(got), want[0] if single else want, r, scale, "clamp again form=%s" % form)
        if not single and len(cols):
            # each joint on its own, through the joint
            for k, i in enumerate(cols):
                j = chain.find_joint(self.names.joint[i])
                v = torch.tensor(th[:, k], dtype=DT[r.dt])
                self.close("clamp", self.call(j.clamp, v), want[:, k], r, scale, "clamp by joint")
        if len(cols) and rng.random() < .5:
            self.clamp_elsewhere(r, ev, cols, rng)
        self.tick("clamped", th.size)
        return [got.detach()]

    def clamp_elsewhere(self, r, ev, cols, rng):
        """any values, and values close to their limits"""
        B, lims = rng.choice((1, 1, 3, 50)), [limit(self.frames[i]["lim"]) or (-INF, INF) for i in cols]
        if self.format == "mjcf":
            lims = list(zip(*[[float(x) for x in b] for b in r.chain.get_joint_limits()]))   # (converted from degrees; compared elsewhere)
        th = np.zeros((B, len(cols)))
        for j, b in enumerate(lims):
            for k in range(B):
                edge = rng.choice(b)
                th[k, j] = rng.uniform(-9, 9) if math.isinf(edge) or rng.random() < .4 else edge + rng.choice((-1, 1)) * 10 ** -rng.uniform(0, 9)
                if rng.random() < .05:
                    th[k, j] = rng.choice((INF, -INF, 1e30, -1e30))
        th = torch.tensor(th, dtype=DT[r.dt]).double().numpy()
        want = np.clip(th, [b[0] for b in lims], [b[1] for b in lims])
        x, form = self.pass_as(r, ev["form"], th, cols, rng)
        got = self.call(r.chain.clamp, x)
        want = want[0] if form in ("t1", "n1", "list", "dict_f", "dict_t0", "dict_rev") else want
        same = np.isinf(want)
        g = got.detach().double().numpy()
        if g.shape != want.shape or got.dtype != DT[r.dt] or not np.array_equal(g[same], want[same]) or \
                not np.allclose(g[~same], want[~same], rtol=1e-6 if r.pr == "f32" else 1e-15, atol=0):
            raise Mismatch("clamp", "clamp form=%s of %s gives %s instead of %s" % (form, th, g, want))
        self.tick("clamped_elsewhere", th.size)

    def struct(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, nm = r.chain, self.names
        cols = self.columns(r)
        fr = {x[0]: x for x in ev["frames"]}
        ids = [x[0] for x in ev["frames"]]
        moving = [i for i in ids if fr[i][1] != "F"]

        def need(ok, msg):
            if not ok:
                raise Mismatch("structure", msg)

        def uniq(names, want, what):
            need(len(names) == len(set(names)) and set(names) == set(want), "%s: %s instead of %s" % (what, names, sorted(want)))

        def by_names():
            names = chain.get_joint_parameter_names()
            js = chain.get_joints()
            need([j.name for j in js] == names, "joints %s, names %s" % ([j.name for j in js], names))
            need(chain.n_joints == len(names), "n_joints %d" % chain.n_joints)
            axes = chain.axes.detach().double().numpy()
            for k, (j, i) in enumerate(zip(js, cols)):
                f = self.frames[i]
                a = self.axis(i)
                need(j.joint_type == {"R": "revolute", "P": "prismatic"}[f["jt"]], "type of joint %s is %s" % (j.name, j.joint_type))
                need(np.allclose(j.axis.double().numpy(), a, atol=1e-6), "axis of joint %s is %s" % (j.name, j.axis))
                need(np.allclose(axes[k], a, atol=1e-6), "axis of column %d is %s" % (k, axes[k]))
            full = chain.get_joint_parameter_names(exclude_fixed=False)
            fullj = chain.get_joints(exclude_fixed=False)
            need(list(full) == [j.name for j in fullj], "all joints %s, names %s" % ([j.name for j in fullj], full))
            want = [nm.joint[i] for i in ids]
            if self.format != "api":
                want[0] = None   # the root of a loaded or extracted chain has no joint of its own
                need(full.count(None) == want.count(None), "unnamed joints: %s" % full)
                full, want = [n for n in full if n is not None], [n for n in want if n is not None]
            elif fr[ids[0]][1] == "F":   # the joint of the root may be unnamed
                need(len(full) == len(want), "all joints: %s" % full)
                root = [n for n in full if n in (None, nm.joint[ids[0]])]
                need(len(root) == 1, "root joint in %s" % full)
                full = [n for n in full if n not in (None, nm.joint[ids[0]])]
                want = want[1:]
            uniq(full, want, "all joint names")
            need([n for n in full if n in names] == list(names), "order of all joints %s vs %s" % (full, names))

        def frames():
            uniq(chain.get_frame_names(exclude_fixed=False), [nm.frame[i] for i in ids], "frame names")
            uniq(chain.get_frame_names(), [nm.frame[i] for i in moving], "moving frame names")
            uniq(chain.get_joint_parent_frame_names(), [nm.frame[i] for i in moving], "joint parent frames")
            uniq(chain.get_joint_parent_frame_names(exclude_fixed=False), [nm.frame[i] for i in ids], "all joint parent frames")

        def links():
            ls = chain.get_links()
            uniq([l.name for l in ls], [nm.link[i] for i in ids], "links")
            uniq(chain.get_link_names(), [nm.link[i] for i in ids], "link names")
            need(list(chain.get_link_names()) == [l.name for l in ls], "link names %s of the links %s" % (chain.get_link_names(), [l.name for l in ls]))

        def lookups():
            for i in rng.sample(ids, len(ids)):
                f = chain.find_frame(nm.frame[i])
                need(f is not None and f.name == nm.frame[i], "find_frame(%s)" % nm.frame[i])
                l = chain.find_link(nm.link[i])
                need(l is not None and l.name == nm.link[i] and l is f.link, "find_link(%s) is %s" % (nm.link[i], l))
                j = chain.find_joint(nm.joint[i] or "nosuch")
                if nm.joint[i] is None or (self.format != "api" and i == ids[0]):
                    need(j is None and f.joint.joint_type == "fixed", "joint of %s" % f.name)
                elif i == ids[0] and fr[i][1] == "F":
                    need(j is None or j is f.joint, "find_joint(%s)" % nm.joint[i])
                else:
                    need(j is not None and j.name == nm.joint[i] and j is f.joint, "find_joint(%s) is %s" % (nm.joint[i], j))
                kids, want = [c.name for c in f.children], [nm.frame[c] for c in fr[i][3]]
                need(kids == want if self.format == "api" else sorted(kids) == sorted(want), "children of %s" % f.name)
                need(f.is_end() == (fr[i][3] == []), "is_end of %s" % f.name)
            gone = [i for i in self.frames if i not in ids]
            for i in gone:
                need(chain.find_frame(nm.frame[i]) is None, "find_frame of a frame that is not there: %s" % nm.frame[i])
                need(chain.find_link(nm.link[i]) is None, "find_link of a link that is not there")
                need(nm.joint[i] is None or chain.find_joint(nm.joint[i]) is None, "find_joint of a joint that is not there")
            for bad in ("nosuch", "", nm.frame[ids[0]] + "~", nm.frame[ids[-1]][:-1] + "~", str(nm.joint[ids[-1]]).upper() + "^"):
                need(chain.find_frame(bad) is None and chain.find_joint(bad) is None and chain.find_link(bad) is None, "lookup of %r" % bad)

        def indices():
            order = rng.sample(ids, len(ids))
            idx = chain.get_frame_indices(*[nm.frame[i] for i in order])
            need(sorted(idx.tolist()) == list(range(len(ids))), "frame indices %s" % idx)
            for i, k in zip(order, idx.tolist()):
                need(chain.frame_to_idx[nm.frame[i]] == k and chain.idx_to_frame[k] == nm.frame[i], "index of %s" % nm.frame[i])
                need(chain.get_frame_indices(nm.frame[i]).tolist() == [k], "index of %s alone" % nm.frame[i])
            need(sorted(chain.get_all_frame_indices().tolist()) == list(range(len(ids))), "all frame indices")

        def below():
            got = {}
            for j, ls in chain.get_joints_and_child_links():
                need(j.name not in got, "joint %s listed twice" % j.name)
                got[j.name] = [l.name for l in ls]
            uniq(list(got), [nm.joint[i] for i in moving], "joints with child links")
            for i in moving:
                uniq(got[nm.joint[i]], [nm.link[k] for k in fr[i][4] if k], "links moved by %s" % nm.joint[i])

        def printed():
            s = chain.print_tree(do_print=False)
            lines = s.split("\n")
            need(lines[-1] == "" and len(lines) == len(ids) + 1 and lines[0] == nm.frame[ids[0]], "printed tree:\n%s" % s)
            above, kids = [(-1, lines[0])], {nm.frame[i]: [] for i in ids}
            for line in lines[1:-1]:
                m = PRINTED.match(line)
                need(m is not None and m.group(3) in kids, "printed tree, line %r:\n%s" % (line, s))
                depth = len(m.group(1)) // 4
                while above[-1][0] >= depth:
                    above.pop()
                need(above[-1][0] == depth - 1, "printed tree, line %r:\n%s" % (line, s))
                kids[above[-1][1]].append(m.group(3))
                # a line goes on below a frame exactly when another one of its parent's follows
                above.append((depth, m.group(3)))
            for i in ids:
                want = [nm.frame[c] for c in fr[i][3]]
                got = kids[nm.frame[i]]
                need(got == want if self.format == "api" else sorted(got) == sorted(want), "printed tree, below %s:\n%s" % (nm.frame[i], s))
            for k, line in enumerate(lines[1:-1], 1):
                depth = len(PRINTED.match(line).group(1)) // 4
                after = [PRINTED.match(x) for x in lines[k + 1:-1]]
                sib = next((x for x in after if len(x.group(1)) // 4 <= depth), None)
                more = sib is not None and len(sib.group(1)) // 4 == depth
                need((PRINTED.match(line).group(2)[0] == "\u251c") == more, "printed tree, line %r:\n%s" % (line, s))
                for x in after[: after.index(sib) if sib is not None else len(after)]:
                    need((x.group(1)[4 * depth] == "\u2502") == more, "printed tree, below line %r:\n%s" % (line, s))
            need(s == str(chain) and s == str(chain.find_frame(nm.frame[ids[0]])), "str(chain)")

        def seen():
            if self.format == "api":
                return
            for i in ids:
                self.visuals(chain.find_frame(nm.frame[i]).link.visuals, fr[i][5], nm.frame[i], i)

        todo = [by_names, frames, links, lookups, indices, below, printed, seen]
        k = ev["ord"]
        for fn in todo[k:] + todo[:k]:
            fn()
        self.tick("structures")
        return []

    def visuals(self, got, want, where, i):
        """what is seen of a link of a loaded chain"""
        def need(ok, msg):
            if not ok:
                raise Mismatch("visuals", "%s: %s, of\n%s" % (where, msg, self.text))

        got = list(got)
        if self.format == "urdf":
            # only the first one is promised
            if not want:
                need(not got or len(got) == 1 and got[0].geom_type is None, "%s instead of none" % got)
                return
            need(len(got) in (1, len(want)), "%d visuals of %d" % (len(got), len(want)))
        else:
            need(len(got) == len(want), "%d visuals instead of %d" % (len(got), len(want)))
        for g, (kind, flat, dims) in zip(got, want):
            m = turned(self.turn_of(i), mat(flat))
            m[:3, 3] *= self.unit
            o = np.eye(4) if g.offset is None else g.offset.get_matrix().double().numpy().reshape(4, 4)
            d = [x / 4 for x in dims]
            if self.format == "sdf" and kind == "cylinder":   # the same when turned about its axis
                o, m = o[:, 2:], m[:, 2:]
            o, m = o.copy(), m.copy()
            o[:3, -1], m[:3, -1] = o[:3, -1] / self.unit, m[:3, -1] / self.unit
            need(np.allclose(o, m, rtol=0, atol=1e-5 * (1 + np.max(np.abs(m)))), "a %s at\n%s instead of\n%s" % (kind, o, m))
            p = g.geom_param
            if self.format == "mjcf":
                import mujoco
                kinds = {"box": mujoco.mjtGeom.mjGEOM_BOX, "cylinder": mujoco.mjtGeom.mjGEOM_CYLINDER, "sphere": mujoco.mjtGeom.mjGEOM_SPHERE,
                         "capsule": mujoco.mjtGeom.mjGEOM_CAPSULE, "ellipsoid": mujoco.mjtGeom.mjGEOM_ELLIPSOID}
                n = {"box": 3, "cylinder": 2, "sphere": 1, "capsule": 2, "ellipsoid": 3}[kind]
                need(int(np.asarray(g.geom_type).reshape(-1)[0]) == int(kinds[kind]), "%s instead of a %s" % (g.geom_type, kind))
                need(np.allclose(np.asarray(p, dtype=float).reshape(-1)[:n], d[:n], rtol=1e-6, atol=0), "a %s of %s instead of %s" % (kind, p, d[:n]))
                continue
            need(g.geom_type == ("mesh" if kind == "scaled" else kind), "%s instead of a %s" % (g.geom_type, kind))
            mesh = documents.MESHES[dims[0] % 3]
            if kind in ("mesh", "scaled") and self.format == "urdf":
                ok = p[0] == mesh and (p[1] is None if kind == "mesh" else list(p[1]) == d)
            elif kind == "mesh":
                ok = p == mesh
            else:
                ok = list(np.asarray(p, dtype=float).reshape(-1)) == {"box": d, "cylinder": d[:2], "sphere": d[:1]}[kind]
            need(ok, "a %s with %s instead of %s" % (kind, p, d))
        self.tick("visuals", len(want))

    def bad(self, ev, rng):
        r = self.robots[ev["ch"] - 1]
        chain, cols = r.chain, self.columns(r)
        n = len(cols)
        kind = ev["kind"]
        if kind == "end" or kind == "root":
            ok = self.names.frame[r.ids[0]]
            unknown = rng.choice(["nosuch", ok + "~", "None"]) if kind == "end" else "nosuch"
            args = (unknown,) if kind == "end" else (ok, unknown)
            self.rejected("a serial chain %s %s" % (kind, unknown), lambda: pk.chain.SerialChain(chain, *args))
            # a frame that is not below the given root
            if not r.serial or len(r.ids) > 1:
                last = self.names.frame[r.ids[-1]]
                if len(r.ids) > 1:
                    self.rejected("a serial chain from below its end", lambda: pk.chain.SerialChain(chain, ok, last))
            return []
        th = np.array([joint_value(self.frames[i], ev["cfg"][i - 1]) for i in cols] if ev["cfg"] else [0.1] * n)
        dt = DT[r.dt]
        names = [self.names.joint[i] for i in cols]
        w = ev["which"]
        fns = [("forward_kinematics", lambda x: chain.forward_kinematics(x))]
        if r.serial:
            fns.append(("jacobian", lambda x: chain.jacobian(x)))
        B = 1 + w % 3
        if kind == "missing":
            if n < 2:
                return []
            x = {m: float(t) for k, (m, t) in enumerate(zip(names, th)) if k != w % n}
        elif kind == "missing_t1":
            if n < 2:
                return []
            x = {m: torch.full((B,), float(t), dtype=dt) for k, (m, t) in enumerate(zip(names, th)) if k != w % n}
        elif kind == "unknown":
            x = {m: float(t) for m, t in zip(names, th)}
            x["nosuch"] = 0.3
        elif kind == "missing_unknown":
            if n < 1:
                return []
            x = {m if k != w % n else "nosuch": float(t) for k, (m, t) in enumerate(zip(names, th))}
        elif kind == "short":
            if n < 2:
                return []
            x = torch.tensor(th, dtype=dt).repeat(B, 1)[:, :1 + w % (n - 1)]
        elif kind == "short_n":
            if n < 2:
                return []
            x = np.tile(th, (B, 1))[:, :1 + w % (n - 1)]
        elif kind == "short_list":
            if n < 2:
                return []
            x = [float(t) for t in th][:1 + w % (n - 1)]
        elif kind == "long":
            if n < 1:
                return []
            x = torch.cat([torch.tensor(th, dtype=dt).repeat(B, 1), torch.ones(B, 1 + w % 2, dtype=dt)], dim=1)
        elif kind == "long_list":
            if n < 1:
                return []
            x = [float(t) for t in th] + [0.5] * (1 + w % 2)
        else:
            raise AssertionError(kind)
        for name, fn in fns:
            self.rejected("%s of %s (%d joints)" % (name, kind, n), lambda: self.call(fn, x))
        if torch.is_tensor(x):
            self.rejected("forward_kinematics_tensor of %s (%d joints)" % (kind, n), lambda: self.call(chain.forward_kinematics_tensor, x))
        return []

    def baddoc(self, ev, rng):
        tree, fmt = self.event["tree"], self.format
        nm = copy.copy(self.names)
        nm.joint = self.joint_names
        load = {"urdf": pk.build_chain_from_urdf, "sdf": pk.build_chain_from_sdf, "mjcf": pk.build_chain_from_mjcf}[fmt]
        kind = ev["kind"]
        if kind == "end":
            self.rejected("serial chain to an unknown end", lambda: self.loader(self.text, "nosuch"))
            return []
        able = [f["id"] for f in tree if f["par"] and not (fmt == "mjcf" and f["doc"]["site"])]
        if not able:
            return []
        at = able[ev["which"] % len(able)]
        if kind == "joints":
            if fmt != "mjcf":
                return []
            text = documents.mjcf(self.event, nm, rng, several=at)
            import mujoco
            mujoco.MjModel.from_xml_string(text)   # a model like any other to the simulator
            self.rejected("a body with several joints:\n" + text, lambda: load(text))
        else:
            text = getattr(documents, fmt)(self.event, nm, rng, odd=at)
            self.rejected("a joint of unsupported type:\n" + text, lambda: load(text))
        return []

    def rejected(self, what, fn):
        try:
            fn()
        except Mismatch:
            raise
        except Exception:
            self.tick("rejected")
            return
        raise Mismatch("accepted", "%s was not rejected" % what)


def replay(beh, seed, opts):
    w = World(seed, opts)
    w.plain = any(ev["op"] in ("param", "ikstep", "iksolve") for ev in beh)
    seeds = [random.Random(seed * 31 + k).random() for k in range(len(beh))]
    for k, ev in enumerate(beh):
        try:
            with surrounding(w, ev, seeds[k]):
                step(w, beh, k, ev, seeds)
            w.check_handed()
        except Mismatch as e:
            raise Mismatch(e.kind, "event %d (%s): %s" % (k + 1, ev["op"], str(e))) from None
    w.tick("behaviours")
    return w.count


def surrounding(w, ev, x):
    """Queries that need no gradient are also made where none is recorded."""
    if ev["op"] in ("fk", "frame", "jac", "clamp", "limits", "struct", "iksolve", "ikstep", "extract", "to", "bad") and not w.opts.get("by_location"):
        return base.ambient(random.Random(x).random(), ev["op"] in ("fk", "frame", "jac", "clamp", "limits"))
    return base.ambient(1)


def step(w, beh, k, ev, seeds):
    op = ev["op"]
    w.tick("op_" + op)
    if op == "build":
        w.build(ev)
        return
    if op == "again":
        i = ev["ev"] - 1
        while beh[i]["op"] == "again":
            i = beh[i]["ev"] - 1
        old = beh[i]
        if old["op"] in ("build", "to"):
            return
        rng = random.Random(seeds[i])
        if old["op"] == "extract":
            w.extract(old, rng, again=True)
            return
        r = w.robots[old["ch"] - 1]
        out = getattr(w, old["op"])(old, rng)
        if i in w.results and w.results[i][0] == (r.dt, r.pr):
            for a, b in zip(out, w.results[i][1]):
                if a.shape != b.shape or not torch.allclose(a, b, rtol=0, atol=1e-12 if r.dt == "f64" else 1e-6):
                    raise Mismatch("again", "%s gives another answer than before" % old["op"])
        w.tick("asked_again")
        return
    out = getattr(w, op)(ev, random.Random(seeds[k]))
    if op not in ("extract", "to"):
        r = w.robots[ev["ch"] - 1]
        w.results[k] = ((r.dt, r.pr), [x.clone() for x in out])
