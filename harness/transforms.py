"""Replays behaviours of TransformSys into Transform3d and its subclasses."""
import math, random, warnings
import numpy as np
import torch
import pytorch_kinematics.transforms as tf
from base import Mismatch, ambient
from chains import DT, mat
from rotations import h_mul, h_random, q_den, aa_den


def ang(ak):
    return 2 * math.atan2(ak[1], ak[0])


class Reg:
    def __init__(self, tf_, exp, dt, pr):
        self.tf, self.exp, self.dt, self.pr = tf_, exp, dt, pr


def hat(v):
    x, y, z = v
    return np.array([[0., -z, y], [z, 0, -x], [-y, x, 0]])


def dmat(v):
    """derivative of a map: 13 integers; None if it is not tracked"""
    if v[12] == 0:
        return None
    m = np.zeros((4, 4))
    m[:3, :3] = np.array(v[:9]).reshape(3, 3)
    m[:3, 3] = v[9:12]
    return m / v[12]


class World:
    def __init__(self, seed, grad=False):
        self.rng = random.Random(seed)
        # arguments depend on this parameter, whose value is 0
        self.t = torch.zeros((), dtype=torch.float64, requires_grad=True) if grad else None
        self.regs, self.count, self.kept = [], {}, []

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def compare(self, kind, got, want, dt, pr, what):
        if got.dtype != DT[dt]:
            raise Mismatch("dtype", "%s: %s instead of %s" % (what, got.dtype, dt))
        g = got.detach().numpy().astype(np.float64)
        want = np.asarray(want, dtype=np.float64)
        if g.shape != want.shape:
            raise Mismatch(kind, "%s: shape %s instead of %s" % (what, g.shape, want.shape))
        if g.size == 0:
            return
        scale = (1 + np.max(np.abs(want))) ** 2
        tol = 1e-11 if pr == "f64" else 2e-6
        err = np.abs(g - want) / scale
        worst = np.max(err) if np.all(np.isfinite(g)) else math.inf
        if not worst <= tol:
            raise Mismatch(kind, "%s:\n%s\ninstead of\n%s" % (what, g, want))
        k = "max_error_%s_x1e-12" % pr
        self.count[k] = max(self.count.get(k, 0), int(worst * 1e12))

    def weights(self, shape):
        return np.array([self.rng.randrange(-8, 9) / 4 for _ in range(int(np.prod(shape)))]).reshape(shape)

    def same(self, what, got, want, pr):
        got = got.detach().numpy().astype(np.float64)
        scale = (1 + np.max(np.abs(want), initial=0)) ** 2
        err = np.max(np.abs(got - want), initial=0) / scale if got.shape == np.shape(want) and np.all(np.isfinite(got)) else math.inf
        if not err <= (1e-9 if pr == "f64" else 1e-4):
            raise Mismatch("gradient", "%s: %s instead of %s" % (what, got, want))
        k = "max_gradient_error_%s_x1e-12" % pr
        self.count[k] = max(self.count.get(k, 0), int(err * 1e12))
        self.tick("gradients", got.size)

    def derivatives(self, ev):
        d = [dmat(v) for v in ev["vel"]]
        return None if any(x is None for x in d) else np.array(d)

    def differentiate(self, what, y, dy, pr, x=None, dx=None, size=0):
        """y, which has the derivative dy by the parameter, of terms up to size; and sum(u y), for weights u, has the derivative dx(u) by x"""
        u = self.weights(y.shape)
        loss = (torch.tensor(u, dtype=y.dtype) * y).sum()
        scale = 1 + max(np.max(np.abs(u * dy), initial=0), 2 * size)
        if x is None and not y.requires_grad:  # made of constants
            g = [torch.zeros(())]
        else:
            g = torch.autograd.grad(loss, (self.t,) if x is None else (self.t, x), retain_graph=True, allow_unused=True)
            g = [torch.zeros(()) if g[0] is None else g[0]] + list(g[1:])
        self.same(what, g[0] / scale, np.array(np.sum(u * dy) / scale), pr)
        if x is not None:
            self.same(what + ", by the points", g[1], dx(u), pr)

    def rates(self):
        """the largest derivative so far: smaller ones may come from larger ones that cancel"""
        return max((np.max(np.abs(r.d), initial=0) for r in self.regs if r.d is not None), default=0)

    def exp(self, ev):
        return np.array([mat(p) for p in ev["exp"]])

    def result(self, ev, t, keep=True):
        want = self.exp(ev)
        if not isinstance(t, tf.Transform3d):
            raise Mismatch("transform", "%s gives %s" % (ev["op"], type(t)))
        self.compare("transform", t.get_matrix(), want, ev["dt"], ev.get("pr", ev["dt"]), ev["op"])
        if t.dtype != DT[ev["dt"]]:
            raise Mismatch("dtype", "%s: dtype says %s" % (ev["op"], t.dtype))
        if len(t) != len(want):
            raise Mismatch("transform", "%s: length %d instead of %d" % (ev["op"], len(t), len(want)))
        if self.t is not None and "vel" in ev:
            d = self.derivatives(ev)
            if d is None:
                self.tick("untracked")
            else:
                self.differentiate(ev["op"], t.get_matrix(), d, ev.get("pr", ev["dt"]))
        if keep:
            self.regs.append(Reg(t, want, ev["dt"], ev.get("pr", ev["dt"])))
            if self.t is not None:
                self.regs[-1].d = d

    def check_regs(self, what):
        for i, r in enumerate(self.regs):
            self.compare("operand", r.tf.get_matrix(), r.exp, r.dt, r.pr, "register %d after %s" % (i + 1, what))

    # ------------------------------------------------------------------
    def arguments(self, kind, args, dt, style, rates=(), more=None):
        """(constructor, positional, keyword) for a new transform; more: what follows each, as elsewhere() makes it"""
        d = DT[dt]
        n = len(args)
        one = n == 1 and style % 2 == 0
        b = lambda x: x[0] if one else x
        grad = self.t is not None

        def T(x, dx=None):
            x = torch.tensor(np.array(x, dtype=np.float64), dtype=d)
            if grad and rates:
                x = x + self.t.to(d) * torch.tensor(np.array(dx(), dtype=np.float64), dtype=d)
            return x
        vec = lambda v, e: [c / e for c in v]
        unit = lambda q: list(np.array(q, dtype=float) / np.linalg.norm(q))
        kw = {} if dt == "f32" and style % 3 == 0 else {"dtype": d}
        lst = lambda x: x.tolist() if style % 5 == 0 and dt == "f32" and one and not grad else x
        e_ = list(zip(args, rates))
        # rates of the arguments
        dpos = lambda i: lambda: [vec(r["u"], a[i]) for a, r in e_]

        def dunit(q, w):
            q = np.array(q, dtype=float) / np.linalg.norm(q)
            return np.concatenate([[-(q[1:] @ w)], q[0] * np.array(w) + np.cross(w, q[1:])]) / 2
        drot = lambda m, w: hat(w) @ mat(m)[:3, :3]
        deul = lambda: [[r["w"][0], 0, r["w"][2]] for _, r in e_]
        more = more or [None] * n
        e = lambda m, k, zero: zero if m is None else m[k]
        quats = lambda f: T([h_mul(np.array(unit(f(a))), e(m, "quat", np.array([1., 0, 0, 0]))) for a, m in zip(args, more)], lambda: [dunit(f(a), r["w"]) for a, r in e_])
        rots = lambda f: T([mat(f(a))[:3, :3] @ e(m, "rot", np.eye(3)) for a, m in zip(args, more)], lambda: [drot(f(a), r["w"]) for a, r in e_])
        euls = lambda f: T([np.array([ang(x) for x in f(a)]) + [0, 0, e(m, "angle", 0)] for a, m in zip(args, more)], deul)
        trans = lambda i=0: T([np.array(vec(a[i], a[i + 1])) + e(m, "pos", 0) for a, m in zip(args, more)], dpos(i + 1))
        whole, first, second, third = (lambda a: a), (lambda a: a[0]), (lambda a: a[1]), (lambda a: a[2])
        if kind == "identity":
            return tf.Transform3d, [], dict(kw, **({} if one else {"default_batch_size": n}))
        if kind == "matrix":
            def dm():
                return [dmat(r["w"] + r["u"] + r["g"] + r["x"] + [2]) for _, r in e_]
            return tf.Transform3d, [], dict(kw, matrix=b(T([mat(a) @ e(m, "mat", np.eye(4)) for a, m in zip(args, more)], dm)))
        if kind == "pos":
            return tf.Transform3d, [], dict(kw, pos=lst(b(trans())))
        if kind == "quat":
            return tf.Transform3d, [], dict(kw, rot=b(quats(whole)))
        if kind == "rotmat":
            return tf.Transform3d, [], dict(kw, rot=b(rots(whole)))
        if kind == "euler":
            return tf.Transform3d, [], dict(kw, rot=lst(b(euls(whole))))
        if kind == "pos_quat":
            return tf.Transform3d, [], dict(kw, pos=b(trans()), rot=b(quats(third)))
        if kind == "pos_rotmat":
            return tf.Transform3d, [], dict(kw, pos=b(trans()), rot=b(rots(third)))
        if kind == "pos_euler":
            return tf.Transform3d, [], dict(kw, pos=b(trans()), rot=b(euls(third)))
        if kind in ("matrix_pos", "matrix_rot"):  # the rest of the matrix, or what is given besides it, moves
            def dm():
                r_ = []
                for a, r in e_:
                    m = np.zeros((4, 4))
                    if kind == "matrix_pos":
                        m[:3, :3], m[:3, 3] = drot(a[0], r["w"]), [5, 6, 7]
                    else:
                        m[:3, :3], m[:3, 3] = np.arange(9).reshape(3, 3), vec(r["u"], r["e"])
                    r_.append(m)
                return r_
            m = b(T([mat(a[0]) for a in args], dm))
            if kind == "matrix_pos":
                return tf.Transform3d, [], dict(kw, matrix=m, pos=b(trans(1)))
            return tf.Transform3d, [], dict(kw, matrix=m, rot=b(quats(second)))
        if kind in ("translate", "scale"):
            C = tf.Translate if kind == "translate" else tf.Scale
            m = trans() if kind == "translate" else T([np.array(vec(*a)) * e(x, "scale", 1) for a, x in zip(args, more)], lambda: [vec(r["g"], a[1]) for a, r in e_])
            s = style % 4
            if s == 0:
                return C, [m], kw
            if s == 1 and n == 1:
                return C, list(m[0]) if grad else self.numbers(m[0].tolist() if more[0] else vec(*args[0]), style), kw
            if s == 2:
                return C, [], dict(kw, x=m[:, 0], y=m[:, 1], z=m[:, 2])
            return C, [m[:, 0], m[:, 1].clone(), m[0, 2] if n == 1 else m[:, 2]], kw
        if kind == "scale1":
            m = T([a[0] / a[1] * e(x, "scale", [1])[0] for a, x in zip(args, more)], lambda: [r["g"][0] / a[1] for a, r in e_])
            if n == 1 and style % 3 == 0 and not grad:
                return tf.Scale, self.numbers([args[0][0] / args[0][1] * e(more[0], "scale", [1])[0]], style), kw
            if n == 1 and style % 3 < 2:
                return tf.Scale, [m[0]], kw
            return tf.Scale, [m], kw
        if kind == "rotate_m":
            return tf.Rotate, [b(rots(whole))], kw
        if kind == "rotate_q":
            return tf.Rotate, [b(quats(whole))], kw
        if kind == "rotate_e":
            return tf.Rotate, [b(euls(whole))], kw
        if kind == "axis":
            ax = "XYZ"[args[0][0] - 1]
            ax = ax.lower() if style % 7 == 0 else ax
            a = T([ang(x[1]) + e(m, "angle", 0) for x, m in zip(args, more)], lambda: [r["w"][0] for _, r in e_])
            deg = style % 2 == 1
            if deg:
                a = a * 180 / math.pi
            if n == 1 and style % 3 == 0 and not grad:
                a, = self.numbers([(ang(args[0][1]) + e(more[0], "angle", 0)) * (180 / math.pi if deg else 1)], style)
            elif n == 1 and style % 3 < 2:
                a = a[0]
            if deg and style % 5 == 0:
                return tf.RotateAxisAngle, [a, ax], dict(dtype=d)
            return tf.RotateAxisAngle, [a], dict(dtype=d, axis=ax, degrees=deg)
        raise AssertionError(kind)

    def numbers(self, xs, style):
        """numbers of every kind"""
        xs = [float(x) for x in xs]
        if style % 5 == 1:
            return [np.float64(x) for x in xs]
        return [int(x) if x.is_integer() and style % 5 == 2 else x for x in xs]

    def elsewhere(self, ev, kind, args, make, want):
        """The same with other arguments, so that every transform is followed by a rotation, translation, scaling or
        affine transform of any or a tiny size."""
        r = self.rng
        if self.t is not None or r.random() < .5:
            return
        last, more = [], []
        n = len(args)
        for i in range(n):
            how = r.choice(["any", "tiny", "half"])
            q = h_random(r, how)
            size = 10 ** r.uniform(-9, 5)
            angle = {"any": lambda: r.uniform(-9, 9), "tiny": lambda: 10 ** r.uniform(-9, -2), "half": lambda: math.pi + r.choice([-1, 1]) * 10 ** r.uniform(-9, -2)}[how]()
            pos = np.array([r.gauss(0, 1) for _ in range(3)]) * size
            scale = np.exp([r.gauss(0, 1) for _ in range(3)]) if how == "any" else 1 + np.array([r.gauss(0, 1e-4) for _ in range(3)])
            if kind == "scale1":
                scale[:] = scale[0]
            M = np.eye(4)
            M[:3, :3] += np.array([r.uniform(-.3, .3) for _ in range(9)]).reshape(3, 3) * (1 if how == "any" else 1e-6)
            if how == "half" and ev["dt"] == "f64":
                M[:3, :3] = M[:3, :3] @ np.diag(np.exp([r.gauss(0, 3) for _ in range(3)]))
            M[:3, 3] = pos * (1 if how == "any" else min(1, 1 / size))
            more.append({"quat": q, "rot": q_den(q), "angle": angle, "pos": pos, "scale": scale, "mat": M})
            L, F = np.eye(4), np.eye(4)  # what comes after, and before
            if kind in ("pos", "pos_quat", "pos_rotmat", "pos_euler", "matrix_pos", "translate"):
                F[:3, 3] = pos
            if kind in ("quat", "rotmat", "pos_quat", "pos_rotmat", "matrix_rot", "rotate_m", "rotate_q"):
                L[:3, :3] = q_den(q)
            if kind in ("euler", "pos_euler", "rotate_e", "axis"):
                c = args[i][0] - 1 if kind == "axis" else 2
                L[:3, :3] = aa_den(np.eye(3)[c], angle)
            if kind in ("scale", "scale1"):
                L[:3, :3] = np.diag(scale)
            if kind == "matrix":
                L = M
            last.append((F, L))
        if kind == "identity":
            return
        if kind == "translate":  # translations commute
            last = [(L, F) for F, L in last]
        want = np.array([F @ w @ L for w, (F, L) in zip(want if len(want) >= n else want.repeat(n, 0), last if len(last) == len(want) else last * len(want))])
        t = make(more)
        dt, pr = ev["dt"], ev.get("pr", ev["dt"])
        self.compare("elsewhere", t.get_matrix(), want, dt, pr, "%s with %s" % (kind, more))
        one = np.linalg.norm(want[:, :3, 3], axis=1).max()
        inv = np.linalg.inv(want)
        if np.max(np.abs(want)) * np.max(np.abs(inv)) < (1e5 if pr == "f32" else 1e7):
            self.compare("elsewhere", t.inverse().get_matrix(), inv, dt, pr, "inverse of %s with %s" % (kind, more))
            self.compare("elsewhere", t.compose(t.inverse()).get_matrix(), np.tile(np.eye(4), (len(want), 1, 1)) , dt, "f32" if pr == "f32" else pr, "and back") if one < 10 else None
        x = np.array([r.gauss(0, 1) * 10 ** r.uniform(-6, 4) for _ in range(6)]).reshape(2, 3)
        y = np.einsum("nij,pj->npi", want[:, :3, :3], x) + want[:, None, :3, 3]
        xt = torch.tensor(x, dtype=DT[dt])
        self.compare("elsewhere", t.transform_points(xt), y[0] if len(y) == 1 else y, dt, pr, "points by %s with %s" % (kind, more))
        self.tick("elsewhere_" + kind)

    def splits(self, kind, args):
        # three Euler triples look like a matrix: give them one by one
        return "euler" in kind or kind == "rotate_e" if len(args) == 3 else False

    def make(self, ev):
        kind, args = ev["kind"], ev["args"]
        parts = [([a], [r]) for a, r in zip(args, ev["rates"])] if self.splits(kind, args) else [(args, ev["rates"])]
        made = []
        for p, r in parts:
            C, pos, kw = self.arguments(kind, p, ev["dt"], ev["style"], r)
            keep = [x.clone() for x in list(pos) + list(kw.values()) if torch.is_tensor(x)]
            made.append(C(*pos, **kw))
            for x, y in zip([x for x in list(pos) + list(kw.values()) if torch.is_tensor(x)], keep):
                if not torch.equal(x, y):
                    raise Mismatch("mutation", "constructor changed its argument")
        t = made[0] if len(made) == 1 else made[0].stack(*made[1:])
        self.result(ev, t)

        def again(more):
            ts = []
            for i in range(len(parts)):
                C, pos, kw = self.arguments(kind, parts[i][0], ev["dt"], ev["style"], parts[i][1], more if len(parts) == 1 else more[i:i + 1])
                ts.append(C(*pos, **kw))
            return ts[0] if len(ts) == 1 else ts[0].stack(*ts[1:])
        self.elsewhere(ev, kind, args, again, self.exp(ev))
        self.tick("made_" + kind)

    def chain(self, ev):
        kind, args = ev["kind"], ev["args"]
        a = self.regs[ev["a"] - 1]
        if self.splits(kind, args):
            # the product of a composition with the stacked rotations
            parts = [tf.Rotate(*self.arguments(kind, [x], ev["dt"], ev["style"], [r])[1], dtype=DT[ev["dt"]]) for x, r in zip(args, ev["rates"])]
            t = a.tf.compose(parts[0].stack(*parts[1:]))
        else:
            C, pos, kw = self.arguments(kind, args, ev["dt"], ev["style"], ev["rates"])
            if kind == "axis" or ev["style"] % 4 == 0:
                kw.pop("dtype", None)
            fn = {"translate": "translate", "scale": "scale", "scale1": "scale", "rotate_m": "rotate", "rotate_q": "rotate",
                  "rotate_e": "rotate", "axis": "rotate_axis_angle"}[kind]
            t = getattr(a.tf, fn)(*pos, **kw)

            def again(more):
                C, pos, kw2 = self.arguments(kind, args, ev["dt"], ev["style"], ev["rates"], more)
                return getattr(a.tf, fn)(*pos, **{k: v for k, v in kw2.items() if k in kw or k in "xyz"})
            self.elsewhere(ev, kind, args, again, self.exp(ev))
        self.result(ev, t, ev["keep"])
        self.tick("chained_" + kind)

    def compose(self, ev):
        a, b = self.regs[ev["a"] - 1], self.regs[ev["b"] - 1]
        self.result(ev, a.tf.compose(b.tf), ev["keep"])

    def compose3(self, ev):
        a, b, c = [self.regs[ev[k] - 1] for k in "abc"]
        self.result(ev, a.tf.compose(b.tf, c.tf), False)

    def bad_compose(self, ev):
        a, b = self.regs[ev["a"] - 1], self.regs[ev["b"] - 1]
        self.rejected("composing batches of %d and %d" % (len(a.exp), len(b.exp)), lambda: a.tf.compose(b.tf))

    def inverse(self, ev):
        self.result(ev, self.regs[ev["a"] - 1].tf.inverse(), ev["keep"])

    def stack(self, ev):
        self.result(ev, self.regs[ev["a"] - 1].tf.stack(self.regs[ev["b"] - 1].tf))

    def len(self, ev):
        t = self.regs[ev["a"] - 1].tf
        if len(t) != ev["n"]:
            raise Mismatch("length", "%d instead of %d" % (len(t), ev["n"]))
        repr(t)

    def index(self, ev):
        t, k, n = self.regs[ev["a"] - 1].tf, ev["kind"], ev["n"]
        sel = [s - 1 for s in ev["sel"]]
        if k == "int":
            i = sel[0]
        elif k == "negint":
            i = sel[0] - n
        elif k == "slice":
            i = slice(sel[0], None)
        elif k == "mask":
            i = torch.tensor([x in sel for x in range(n)])
        elif k == "tensor":
            i = torch.tensor(sel)
        else:
            i = sel
        self.result(ev, t[i])

    def clone(self, ev):
        t = self.regs[ev["a"] - 1].tf
        self.result(ev, t.clone())
        if ev["scribble"]:
            with torch.no_grad():
                t.clone().get_matrix().fill_(7.0)

    def to(self, ev):
        t = self.regs[ev["a"] - 1].tf
        if ev["copy"]:
            u = t.to("cpu", copy=True, dtype=DT[ev["dt"]])
            u2 = t.to("cpu", copy=True, dtype=DT[ev["dt"]])
            with torch.no_grad():
                u2.get_matrix().fill_(5.0)
        else:
            u = t.to(device="cpu", dtype=DT[ev["dt"]])
        self.result(ev, u)

    def apply(self, ev):
        r = self.regs[ev["a"] - 1]
        shape = ev["shape"]
        pdt = ev["pdt"] if shape != "b2b" else ev["dt"]
        x = torch.tensor(ev["pts"], dtype=DT[pdt])
        want = np.array([[np.array(v[:3], dtype=float) / v[3] for v in row] for row in ev["exp"]])
        pr = "f32" if "f32" in (ev["pr"], pdt) else "f64"
        kw = {}
        if shape == "b2b":
            x = x[0]
            want = want[:, 0]
            kw["batch_to_batch"] = True
        elif shape == "P3":
            x = x[0]
            if len(want) == 1:
                want = want[0]
        if ev["what"] == "points" and ev["eps"]:
            kw["eps"] = 1e-3
        keep = x.clone()
        if self.t is not None:
            x.requires_grad_()
        fn = r.tf.transform_points if ev["what"] == "points" else r.tf.transform_normals
        got = fn(x, **kw)
        self.compare(ev["what"], got, want, pdt, pr, "%s %s of %d transforms" % (ev["what"], shape, len(r.exp)))
        if not torch.equal(x, keep):
            raise Mismatch("mutation", "transforming %s changed them" % ev["what"])
        self.kept.append((got, got.clone()))
        self.tick("applied", want.size // 3)
        if self.t is not None and r.d is not None:
            # the linear part L and translation applied to each point, and their derivatives
            L, p, dL, dp = r.exp[:, :3, :3], r.exp[:, :3, 3], r.d[:, :3, :3], r.d[:, :3, 3]
            if ev["what"] == "normals":
                I = np.linalg.inv(L)
                L, dL, p, dp = np.swapaxes(I, 1, 2), -np.swapaxes(I @ dL @ I, 1, 2), 0 * p, 0 * dp
            X = x.detach().numpy().astype(np.float64)
            X = X[:, None] if shape == "b2b" else X.reshape((-1,) + X.shape[-2:])
            dy = np.einsum("nij,npj->npi", dL + np.zeros((len(X), 1, 1)) if len(dL) == 1 else dL, X + np.zeros((len(dL), 1, 1))) + dp[:, None]

            def dx(u):
                u = u.reshape(dy.shape)
                g = np.einsum("nij,npi->npj", L + np.zeros((len(u), 1, 1)), u)
                g = g if len(X) == len(g) else g.sum(0, keepdims=True)
                return g.reshape(x.shape)
            self.differentiate("applying to " + ev["what"], got, dy.reshape(want.shape), pr, x, dx, max(np.max(np.abs(dL)), self.rates()) * np.max(np.abs(X), initial=0))
        if ev["what"] == "normals" and shape != "b2b":
            self.shape_operators(ev, r, x.detach(), want, pr, pdt)

    def shape_operators(self, ev, r, x, want, pr, pdt):
        """sums of products of normals, which transform as the normals do"""
        w = want.reshape((-1,) + want.shape[-2:])
        k = ev["eps"]
        c = [self.rng.randrange(-3, 4) for _ in range(2)]

        def form(n):
            other = n[..., ::-1, :] if isinstance(n, np.ndarray) else n.flip(-2)
            return c[0] * n[..., :, None] * other[..., None, :] + c[1] * other[..., :, None] * n[..., None, :] * (1 if k else 0)
        ops = form(x)
        keep = ops.clone()
        got = r.tf.transform_shape_operator(ops)
        out = form(w).reshape(want.shape + (3,))
        what = "shape operators %s of %d transforms" % (tuple(ops.shape), len(r.exp))
        self.compare("operators", got, out, pdt, pr, what)
        if not torch.equal(ops, keep):
            raise Mismatch("mutation", "transforming shape operators changed them")
        self.tick("shape_operators", out.size // 9)
        if self.t is not None and r.d is not None:
            I = np.linalg.inv(r.exp[:, :3, :3])
            B = np.swapaxes(-r.d[:, :3, :3] @ I, 1, 2)[:, None]     # derivative of inv(L).T = B inv(L).T
            o = form(w)
            self.differentiate(what, got, (B @ o + o @ np.swapaxes(B, -1, -2)).reshape(out.shape), pr,
                               size=self.rates() * np.max(np.abs(I)) * np.max(np.abs(o), initial=0))

    def project(self, ev):
        """points through transforms whose last row is not (0, 0, 0, 1)"""
        r = self.regs[ev["a"] - 1]
        m = r.tf.get_matrix().clone()
        m[:, 3, :] = torch.tensor(ev["last"], dtype=DT[ev["dt"]])
        t = tf.Transform3d(matrix=m, dtype=m.dtype)
        x = torch.tensor(ev["pts"], dtype=DT[ev["dt"]])
        want = np.array([[np.array(v[:3], dtype=float) / v[3] for v in row] for row in ev["exp"]])
        kw = dict(batch_to_batch=True) if ev["b2b"] else {}
        if ev["eps"]:
            kw["eps"] = ev["eps"] / 8
        if ev["b2b"]:
            want = want[:, 0]
        elif len(want) == 1:
            want = want[0]
        keep = x.clone(), m.clone()
        got = t.transform_points(x, **kw)
        self.compare("project", got, want, ev["dt"], ev["pr"], "projective points, %s" % kw)
        if not torch.equal(x, keep[0]) or not torch.equal(t.get_matrix(), keep[1]):
            raise Mismatch("mutation", "transforming points changed them or the transform")
        if self.t is not None:
            m, x = m.detach().requires_grad_(), x.requires_grad_()
            got2 = tf.Transform3d(matrix=m, dtype=m.dtype).transform_points(x, **kw)
            y = (m[..., :3] * x[:, None] if ev["b2b"] else m[:, None, :, :3] * x[None, :, None]).sum(-1) + (m if ev["b2b"] else m[:, None])[..., 3]
            w = y[..., 3:]
            if ev["eps"]:
                e = ev["eps"] / 8
                w = torch.where(w.abs() > e, w, torch.where(w < 0, -e, e))
            at_edge = ev["eps"] and bool((y[..., 3].abs() == ev["eps"] / 8).any())
            u = torch.tensor(self.weights(got2.shape), dtype=got2.dtype)
            want2 = (y[..., :3] / w).reshape(got2.shape)
            if not at_edge:
                for name, a, b in zip(("matrix", "points"), torch.autograd.grad((u * got2).sum(), (m, x)), torch.autograd.grad((u * want2).sum(), (m, x))):
                    k = 1 + float(b.abs().max())
                    self.same("of projecting, by the " + name, a / k, (b / k).numpy(), ev["pr"])
        self.kept.append((got, got.clone()))
        self.tick("projected", want.size // 3)
        if self.t is None and not ev["eps"]:
            # other last rows, also next to (0, 0, 0, 1): homogeneous coordinates stay the same, but for the last
            last = np.array(ev["last"], dtype=float) * 0 + [0, 0, 0, 1] + self.rng.choice([1e-2, 1e-4]) * np.array(
                [self.rng.uniform(-1, 1) for _ in range(np.size(ev["last"]))]).reshape(np.shape(ev["last"]))
            m2 = m.clone()
            m2[:, 3, :] = torch.tensor(last, dtype=m.dtype)
            old = np.array(ev["last"], dtype=float).reshape(-1, 4)
            new = last.reshape(-1, 4)
            X = np.array(ev["pts"], dtype=float).reshape(-1, 3)
            if ev["b2b"]:
                f = (np.sum(old[:, :3] * X, 1) + old[:, 3]) / (np.sum(new[:, :3] * X, 1) + new[:, 3])
                f = f[:, None]
            else:
                f = ((X @ old[:, :3].T + old[:, 3]) / (X @ new[:, :3].T + new[:, 3])).T[..., None]
                f = f[0] if want.ndim == 2 and f.shape[0] == 1 else f
            got = tf.Transform3d(matrix=m2, dtype=m2.dtype).transform_points(x.detach(), **kw)
            self.compare("project", got, want * f, ev["dt"], ev["pr"], "projective points, last row %s" % last)

    def bad(self, ev):
        r = self.regs[ev["a"] - 1]
        n, k, d = ev["n"], ev["kind"], DT[r.dt]
        if k == 0:
            fn = lambda: r.tf.transform_points(torch.zeros(3, dtype=d))
        elif k == 1:
            fn = lambda: r.tf.transform_points(torch.zeros(2, 2, 2, 3, dtype=d))
        elif k == 2:
            fn = lambda: tf.Transform3d(matrix=torch.zeros(3, 4, dtype=d))
        elif k == 3:
            fn = lambda: r.tf[n]
        elif k == 4:
            fn = lambda: tf.Transform3d(matrix=torch.zeros(16, dtype=d))
        elif k == 5:
            if n == 1:
                return
            fn = lambda: r.tf.compose(tf.Transform3d(default_batch_size=n + 1, dtype=d))
        elif k == 6:
            if n == 1:
                return
            fn = lambda: r.tf.transform_points(torch.zeros(n + 1, 2, 3, dtype=d))
        elif k == 7:
            fn = lambda: tf.Translate(torch.zeros(n, 2, dtype=d), dtype=d)
        else:
            fn = lambda: tf.RotateAxisAngle(10., "W")
        self.rejected("unusable argument %d" % k, fn)

    def rejected(self, what, fn):
        try:
            fn()
        except Exception:
            self.tick("rejected")
            return
        raise Mismatch("accepted", "%s was not rejected" % what)


def replay(beh, seed, opts):
    w = World(seed, bool(opts.get("grad")))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, ev in enumerate(beh):
            try:
                w.tick("op_" + ev["op"])
                with ambient(1 if opts.get("grad") else random.Random(seed * 37 + k).random()):
                    getattr(w, ev["op"])(ev)
                w.check_regs("event %d (%s)" % (k + 1, ev["op"]))
                for a, b in w.kept:
                    if not torch.equal(a, b):
                        raise Mismatch("stale", "points handed out earlier have changed")
            except Mismatch as e:
                raise Mismatch(e.kind, "event %d (%s): %s" % (k + 1, ev["op"], e)) from None
    w.tick("behaviours")
    return w.count
