"""Replays behaviours of RotSys into the conversions between representations of rotations."""
import math, random, warnings
import numpy as np
import torch
import pytorch_kinematics as pk
import pytorch_kinematics.transforms as tf
import pytorch_kinematics.transforms.rotation_conversions as rc
from base import Mismatch, ambient

DT = {"f32": torch.float32, "f64": torch.float64}
TOL = {"f32": 3e-5, "f64": 1e-11}
GTOL = {"f32": 1e-3, "f64": 1e-8}
AX = {"X": 0, "Y": 1, "Z": 2}


# ---- what each representation means, independently of the library -------------------------------------------
def q_den(q):
    q = q / np.linalg.norm(q, axis=-1, keepdims=True)
    w, x, y, z = np.moveaxis(q, -1, 0)
    return np.stack([1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
                     2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
                     2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], -1).reshape(q.shape[:-1] + (3, 3))


def aa_den(axis, angle):
    a = np.asarray(axis, dtype=np.float64)
    h = np.asarray(angle, dtype=np.float64)[..., None] / 2
    return q_den(np.concatenate([np.cos(h), np.sin(h) * a], -1))


def v_den(v):
    n = np.linalg.norm(v, axis=-1)
    return aa_den(np.where(n[..., None] > 0, v / np.where(n > 0, n, 1)[..., None], [1., 0, 0]), n)


def e_den(e, conv):
    m = np.eye(3)
    for k, c in enumerate(conv):
        ax = np.zeros(e.shape)
        ax[..., AX[c]] = 1
        m = m @ aa_den(ax, e[..., k])
    return m


def d6_den(d):
    a, b = d[..., :3], d[..., 3:6]
    b1 = a / np.linalg.norm(a, axis=-1, keepdims=True)
    b2 = b - np.sum(b1 * b, -1, keepdims=True) * b1
    b2 = b2 / np.linalg.norm(b2, axis=-1, keepdims=True)
    return np.stack([b1, b2, np.cross(b1, b2)], -2)


def encoded(axes):
    """The tuple for an axis sequence (Gohlke's transformations): first axis, parity, repetition, frame."""
    f, abc = axes[0] == "r", ["xyz".index(a) for a in axes[1:]]
    a, b, c = abc[::-1] if f else abc
    return (a, int((a + 1) % 3 != b), int(a == c), int(f))


# ---- the same as functions that torch differentiates ---------------------------------------------------------
def t_hat(v):
    x, y, z = v.unbind(-1)
    o = torch.zeros_like(x)
    return torch.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(v.shape[:-1] + (3, 3))


def t_aa(axis, angle):
    """sin and (1 - cos) times powers of the axis"""
    h = t_hat(axis)
    return torch.eye(3, dtype=axis.dtype) + torch.sin(angle)[..., None, None] * h + (1 - torch.cos(angle))[..., None, None] * (h @ h)


def t_v(v):
    return torch.linalg.matrix_exp(t_hat(v))


def t_q(q):
    """for quaternions of length 1"""
    w, u = q[..., :1], q[..., 1:]
    return (w * w - (u * u).sum(-1, keepdim=True))[..., None] * torch.eye(3, dtype=q.dtype) + 2 * u[..., :, None] * u[..., None, :] + 2 * w[..., None] * t_hat(u)


def t_e(e, conv):
    m = torch.eye(3, dtype=e.dtype)
    for k, c in enumerate(conv):
        ax = torch.zeros(3, dtype=e.dtype)
        ax[AX[c]] = 1
        m = m @ t_aa(ax, e[..., k])
    return m


def t_d6(d):
    a, b = d[..., :3], d[..., 3:6]
    b1 = a / a.norm(dim=-1, keepdim=True)
    b2 = b - (b1 * b).sum(-1, keepdim=True) * b1
    b2 = b2 / b2.norm(dim=-1, keepdim=True)
    return torch.stack([b1, b2, torch.linalg.cross(b1, b2)], -2)


def n_hat(v):
    x, y, z = np.moveaxis(np.asarray(v, dtype=float), -1, 0)
    o = np.zeros_like(x)
    return np.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(np.shape(v)[:-1] + (3, 3))


# ---- rotations between those of the specification ------------------------------------------------------------
def h_mul(p, q):
    a, u, b, v = p[..., :1], p[..., 1:], q[..., :1], q[..., 1:]
    return np.concatenate([a * b - np.sum(u * v, -1, keepdims=True), a * v + b * u + np.cross(u, v)], -1)


def h_inv(q):
    return q * [1, -1, -1, -1]


def h_random(rng, kind):
    """a rotation by any angle, a tiny one, or one next to a half turn"""
    ax = [rng.gauss(0, 1) for _ in range(3)]
    if rng.random() < .3:
        ax = [[1., 0, 0], [0, 1., 0], [0, 0, -1.]][rng.randrange(3)]
    angle = {"any": rng.uniform(-math.pi, math.pi), "tiny": 10 ** rng.uniform(-12, -2),
             "half": math.pi - rng.choice([-1, 0, 1]) * 10 ** rng.uniform(-12, -2)}[kind]
    return np.concatenate([[math.cos(angle / 2)], math.sin(angle / 2) * np.array(ax) / np.linalg.norm(ax)])


def unit(qs):
    q = np.array(qs, dtype=float)
    return q / np.linalg.norm(q, axis=-1, keepdims=True)


class World:
    def __init__(self, seed, grad=False):
        self.rng = random.Random(seed)
        self.grad = grad
        self.count, self.kept = {}, []

    # A behaviour of the specification with rotations R is as well one with the rotations A R D, if what is multiplied
    # from the left turns into A p inv(A), from the right into inv(D) p D, points into inv(D) x and velocities into A w.
    def choose(self, beh):
        ev, r = beh[0], self.rng
        n = len(ev["exp"])
        self.A = self.D = np.tile([1., 0, 0, 0], (n, 1))
        self.angles = None
        how = r.choice(["plain", "plain", "any", "any", "tiny", "tiny", "half", "edge"])
        if how == "plain":
            return
        # several rows share what is given once for all of them
        shared = n > 1 and any(len(e.get("by", e.get("pts", ev["exp"]))) != n for e in beh)
        if ev["rep"] == "e":
            if shared:
                return
            size = {"any": lambda: r.uniform(-3.1, 3.1), "tiny": lambda: r.choice([-1, 1, 0]) * 10 ** r.uniform(-12, -2),
                    "edge": None, "half": lambda: r.choice([-math.pi, math.pi, 0]) + r.choice([-1, 1, 0]) * 10 ** r.uniform(-12, -2)}[how]
            if how == "edge":
                self.angles = self.edge(n, ev["conv"], ev["f"] == 0)
            else:
                self.angles = np.array([[size() for _ in range(3)] for _ in range(n)])
            start = self.euler(self.angles, ev["conv"])
            old = np.tile([1., 0, 0, 0], (n, 1))
            for k, c in enumerate(ev["conv"]):
                q = np.zeros((n, 4))
                h = np.array([t[k] for t in ev["es"]], dtype=float)
                h /= np.linalg.norm(h, axis=-1, keepdims=True)
                q[:, 0], q[:, 1 + AX[c]] = h[:, 0], h[:, 1]
                old = h_mul(old, q)
            self.D = h_mul(h_inv(old), start)
            # a singular start allows only some of the velocities
            close = self.singular(start, ev["conv"], ev["f"] == 0)
        else:
            q = unit(ev["qs"])
            A = np.array([h_random(r, "any") for _ in range(n)])
            conv = next((e["conv"] for e in beh if e.get("to") == "e"), "XYZ")
            if how == "edge":  # where Euler angles are nearly singular
                D = h_mul(h_inv(h_mul(A, q)), self.euler(self.edge(n, conv, ev["f"] == 0), conv))
            elif how == "any":
                D = np.array([h_random(r, "any") for _ in range(n)])
            else:
                D = h_mul(h_inv(h_mul(A, q)), np.array([h_random(r, how) for _ in range(n)]))
            if shared:
                A, D = A[:1].repeat(n, 0), D[:1].repeat(n, 0)
            self.A, self.D = A, D
            close = False
        # leave it if it comes next to what is singular
        A, D = self.A, self.D
        for e in beh:
            if e["op"] == "invert":
                self.A, self.D = h_inv(self.D), h_inv(self.A)
            m = self.real(e["exp"])
            if e.get("to") == "e" or e["op"] == "start" and e["rep"] == "e":
                close = close or self.singular(m, e["conv"], ev["f"] == 0)
            if self.grad and (e.get("to") == "aa" or e["op"] == "start" and e["rep"] == "aa"):
                close = close or bool(np.any(np.trace(m, axis1=-2, axis2=-1) > 3 - 0.05))
        if close:
            A = D = np.tile([1., 0, 0, 0], (n, 1))
            self.angles = None
        else:
            self.tick("gauge_" + how)
        self.A, self.D = A, D

    def edge(self, n, conv, coarse):
        e = np.array([[self.rng.uniform(-3.1, 3.1) for _ in range(3)] for _ in range(n)])
        off = np.array([self.rng.choice([-1, 1]) * 10 ** self.rng.uniform(-0.7 if coarse or self.grad else -2.7, -0.3) for _ in range(n)])
        half = np.array([self.rng.choice([-1, 1]) for _ in range(n)]) * math.pi / 2
        e[:, 1] = half + off if conv[0] != conv[2] else half + math.pi / 2 + off
        return e

    def euler(self, angles, conv):
        r = np.tile([1., 0, 0, 0], (len(angles), 1))
        for k, c in enumerate(conv):
            q = np.zeros((len(angles), 4))
            q[:, 0], q[:, 1 + AX[c]] = np.cos(angles[:, k] / 2), np.sin(angles[:, k] / 2)
            r = h_mul(r, q)
        return r

    def singular(self, m, conv, coarse):
        m = m if m.shape[-1] == 3 else q_den(m)
        return bool(np.any(np.abs(m[..., AX[conv[0]], AX[conv[2]]]) > (0.995 if coarse or self.grad else 1 - 1e-6)))

    def real(self, exp):
        """the rotations of an event, one per row"""
        m = np.array([np.array(e[:9], dtype=float).reshape(3, 3) / e[9] for e in exp])
        return q_den(self.A) @ m @ q_den(self.D)

    def moving(self, ev):
        w = np.array([np.array(v[:3]) / v[3] for v in ev["vel"]])
        return np.einsum("nij,nj->ni", q_den(self.A), w)

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def call(self, fn, *args, **kw):
        """Call the library, checking that it leaves its arguments alone."""
        keep = [(a, a.clone()) for a in args if torch.is_tensor(a)]
        r = fn(*args, **kw)
        for a, b in keep:
            if not torch.equal(a, b):
                raise Mismatch("mutation", "%s changed its argument" % getattr(fn, "__name__", fn))
        for x in r if isinstance(r, tuple) else (r,):
            if x.dtype != self.d:
                raise Mismatch("dtype", "%s: %s instead of %s" % (getattr(fn, "__name__", fn), x.dtype, self.d))
        self.kept += [(x, x.clone()) for x in (r if isinstance(r, tuple) else (r,))]
        return r

    def T(self, x):
        return torch.tensor(np.asarray(x, dtype=np.float64), dtype=self.d)

    def C(self, x, dx):
        """The curve through x with derivative dx: its parameter is 0 and differentiable."""
        if not self.grad:
            return self.T(x)
        extra = np.ndim(x) - len(self.batch)
        return self.T(x) + self.t.reshape(self.batch + (1,) * extra) * self.T(dx)

    def N(self, x):
        return x.detach().numpy().astype(np.float64)

    def verify(self, ev):
        r, v = self.rep, self.val
        n = self.N
        width = {"q": (4,), "x": (4,), "v": (3,), "d6": (6,), "d9": (9,), "m": (3, 3), "m44": (4, 4), "e": (3,)}
        if r in width and tuple(v.shape) != self.batch + width[r]:
            raise Mismatch("shape", "%s has shape %s" % (r, tuple(v.shape)))
        pos = None
        if r == "m":
            got = n(v)
        elif r == "m44":
            got, pos = n(v)[..., :3, :3], n(v)[..., :3, 3]
            if not np.array_equal(n(v)[..., 3, :], np.broadcast_to([0, 0, 0, 1], self.batch + (4,))):
                raise Mismatch("rotation", "last row is %s" % n(v)[..., 3, :])
        elif r == "q":
            got = q_den(n(v))
        elif r == "x":
            got = q_den(np.roll(n(v), 1, -1))
        elif r == "v":
            got = v_den(n(v))
        elif r == "aa":
            got = aa_den(n(v[0]), n(v[1]))
        elif r == "e":
            got = e_den(n(v), self.conv)
        elif r == "d6":
            got = d6_den(n(v))
        elif r == "d9":
            got, pos = d6_den(n(v)), n(v)[..., 6:]
        elif r == "pr":
            got, pos = q_den(np.roll(n(v[1]), 1, -1)), n(v[0])
        if r in ("q", "x") or r == "pr":
            u = np.linalg.norm(n(v[1] if r == "pr" else v), axis=-1)
            if not np.all(np.abs(u - 1) < TOL[self.f]):
                raise Mismatch("rotation", "quaternions of length %s" % u)
        want = self.real(ev["exp"]).reshape(self.batch + (3, 3))
        err = np.max(np.abs(got - want)) if np.all(np.isfinite(got)) else math.inf
        if not err <= TOL[self.f]:
            raise Mismatch("rotation", "as %s%s (%s), off by %g: %s\ndenotes\n%s\ninstead of\n%s" % (r, self.conv, self.f, err, v, got, want))
        k = "max_error_%s_x1e-12" % self.f
        self.count[k] = max(self.count.get(k, 0), int(err * 1e12))
        if pos is not None and not np.array_equal(pos, self.pos):
            raise Mismatch("position", "%s instead of %s" % (pos, self.pos))

    def position(self):
        if not hasattr(self, "pos"):
            round_, size = self.rng.random() < .3, 1 if self.grad else 10 ** self.rng.uniform(-6, 4)
            self.pos, self.dpos = (np.array([self.rng.randrange(-40, 41) / 8 if round_ else float(np.float32(self.rng.gauss(0, 1) * size)) for _ in range(3 * int(np.prod(self.batch)))]).reshape(self.batch + (3,))
                                   for _ in range(2))
        return self.C(self.pos, self.dpos)

    # ------------------------------------------------------------------
    def weights(self, shape):
        return np.array([self.rng.randrange(-8, 9) / 4 for _ in range(int(np.prod(shape)))]).reshape(shape)

    def same(self, what, got, want):
        got = self.N(got)
        scale = 1 + np.max(np.abs(want), initial=0)
        err = np.max(np.abs(got - want), initial=0) / scale if got.shape == want.shape and np.all(np.isfinite(got)) else math.inf
        k = "max_gradient_error_%s_x1e-12" % self.f
        if not err <= GTOL[self.f]:
            raise Mismatch("gradient", "%s, as %s%s (%s): %s instead of %s (value %s)" % (what, self.rep, self.conv, self.f, got, want, self.val))
        self.count[k] = max(self.count.get(k, 0), int(err * 1e12))
        self.tick("gradients", got.size)

    def differentiate(self, ev):
        """Differentiate the rotation denoted by the value by the parameter of the curve begun with."""
        r, v = self.rep, self.val
        pos = None
        if r == "m":
            m = v
        elif r == "m44":
            m, pos = v[..., :3, :3], v[..., :3, 3]
        elif r == "q":
            m = t_q(v)
        elif r == "x":
            m = t_q(v.roll(1, -1))
        elif r == "v":
            m = t_v(v)
        elif r == "aa":
            m = t_aa(*v)
        elif r == "e":
            m = t_e(v, self.conv)
        elif r == "d6":
            m = t_d6(v)
        elif r == "d9":
            m, pos = t_d6(v), v[..., 6:]
        elif r == "pr":
            m, pos = t_q(v[1].roll(1, -1)), v[0]
        w = self.moving(ev).reshape(self.batch + (3,))
        rot = self.real(ev["exp"]).reshape(self.batch + (3, 3))
        u = self.weights(self.batch + (3, 3))
        loss = (self.T(u) * m).sum()
        want = np.sum(u * (n_hat(w) @ rot), (-1, -2))
        if pos is not None:
            u = self.weights(self.batch + (3,))
            loss = loss + (self.T(u) * pos).sum()
            want = want + np.sum(u * self.dpos, -1)
        g, = torch.autograd.grad(loss, self.t, retain_graph=True)
        self.same("after " + ev["op"], g, want)

    def start(self, ev):
        self.f = "f32" if ev["f"] == 0 else "f64"
        self.d = DT[self.f]
        n = len(ev["exp"])
        self.batch = {0: (n,), 1: (n, 1), 2: (1, n), 3: () if n == 1 else (n // 2, 2) if n % 2 == 0 else (n,)}[ev["shape"]]
        self.rep, self.conv = ev["rep"], ev["conv"]
        B = self.batch
        if self.grad:
            self.t = torch.zeros(B, dtype=self.d, requires_grad=True)
        w = self.moving(ev)
        if self.rep == "e":
            e = np.array([[2 * math.atan2(k, a) for a, k in t] for t in ev["es"]]) if self.angles is None else self.angles.copy()
            e[:, 0] += 2 * math.pi * np.array(ev["turns"])
            e[:, 2] -= 2 * math.pi * np.array(ev["turns"])
            de = np.zeros((n, 3))
            for i in range(n):  # velocities of the three angles are velocities about the axes, as moved by the earlier angles
                m, cols = np.eye(3), []
                for k, ch in enumerate(self.conv):
                    ax = np.eye(3)[AX[ch]]
                    cols.append(m @ ax)
                    m = m @ aa_den(ax, e[i, k])
                de[i] = np.linalg.lstsq(np.stack(cols, 1), w[i], rcond=1e-8)[0]
            self.val = self.C(e.reshape(B + (3,)), de.reshape(B + (3,)))
            return
        q = h_mul(h_mul(self.A, unit(ev["qs"])), self.D)
        q[np.array(ev["neg"]) == 1] *= -1
        m = q_den(q).reshape(B + (3, 3))
        s = np.linalg.norm(q[:, 1:], axis=-1)
        axis = np.where(s[:, None] > 0, q[:, 1:] / np.where(s > 0, s, 1)[:, None], [0, 0.6, -0.8])
        angle = 2 * np.arctan2(s, q[:, 0])
        # whole turns of a vector turn its direction too
        total = angle + 2 * math.pi * np.array(ev["turns"])
        if self.grad:  # next to whole turns a vector, other than 0, does not follow every velocity
            close = s < 0.1
            flip = close & (q[:, 0] < 0)
            axis[flip] *= -1
            total[close] = 2 * np.arctan2(s, np.abs(q[:, 0]))[close]
        dm = (n_hat(w) @ m.reshape(-1, 3, 3)).reshape(B + (3, 3))
        qw, qu = q[:, :1].copy(), q[:, 1:].copy()
        dq = np.concatenate([-np.sum(w * qu, -1, keepdims=True), qw * w + np.cross(w, qu)], -1) / 2
        q, dq = q.reshape(B + (4,)), dq.reshape(B + (4,))
        if self.rep == "m":
            self.val = self.C(m, dm)
        elif self.rep == "m44":
            self.position()
            h, dh = np.zeros(B + (4, 4)), np.zeros(B + (4, 4))
            h[..., :3, :3], dh[..., :3, :3] = m, dm
            h[..., :3, 3], dh[..., :3, 3] = self.pos, self.dpos
            h[..., 3, 3] = 1
            self.val = self.C(h, dh)
        elif self.rep == "q":
            self.val = self.C(q, dq)
        elif self.rep == "x":
            self.val = self.C(np.roll(q, -1, -1), np.roll(dq, -1, -1))
        elif self.rep in ("v", "aa"):
            daxis, dangle, dv = np.zeros((n, 3)), np.zeros(n), np.zeros((n, 3))
            for i in range(n if self.grad else 0):
                a, th = axis[i], total[i]
                # w = angle' axis + sin(angle) axis' + (1 - cos(angle)) axis x axis'
                dangle[i] = w[i] @ a
                if abs(th) < 1e-2:  # the inverse of the derivative of the exponential
                    h = n_hat(a * th)
                    dv[i] = (np.eye(3) - h / 2 + (1 / 12 + th * th / 720) * h @ h) @ w[i]
                if s[i] == 0:
                    continue
                A = math.sin(th) * np.eye(3) + (1 - math.cos(th)) * n_hat(a)
                daxis[i] = np.linalg.lstsq(np.concatenate([A, a[None]]), np.append(w[i] - dangle[i] * a, 0), rcond=None)[0]
                if abs(th) >= 1e-2:
                    dv[i] = dangle[i] * a + th * daxis[i]
            if self.rep == "v":
                self.val = self.C((axis * total[:, None]).reshape(B + (3,)), dv.reshape(B + (3,)))
            else:
                self.val = self.C(axis.reshape(B + (3,)), daxis.reshape(B + (3,))), self.C(total.reshape(B), dangle.reshape(B))
        elif self.rep == "d6":
            self.val = self.C(m[..., :2, :].reshape(B + (6,)), dm[..., :2, :].reshape(B + (6,)))
        elif self.rep == "d9":
            self.position()
            self.val = self.C(np.concatenate([m[..., :2, :].reshape(B + (6,)), self.pos], -1), np.concatenate([dm[..., :2, :].reshape(B + (6,)), self.dpos], -1))
        elif self.rep == "pr":
            self.val = self.position(), self.C(np.roll(q, -1, -1), np.roll(dq, -1, -1))
        self.odd(ev)

    def convert(self, ev):
        a, b, w, v = ev["from"], ev["to"], ev["way"], self.val
        c = self.call
        key = a + ">" + b
        if key == "m>q":
            r = c(rc.matrix_to_quaternion, v)
        elif key == "m>v":
            r = c(rc.matrix_to_axis_angle, v)
        elif key == "m>d6":
            r = c(rc.matrix_to_rotation_6d, v)
        elif key == "m>m44":
            r = torch.zeros(self.batch + (4, 4), dtype=self.d)
            r[..., :3, :3] = v
            r[..., 3, 3] = 1
            r[..., :3, 3] = self.position()
        elif key == "m>e":
            r = c(rc.matrix_to_euler_angles, v, ev["conv"])
        elif key == "m44>d9":
            r = c(rc.matrix44_to_se3_9d, v)
        elif key == "m44>pr":
            r = c(rc.matrix_to_pos_rot, v)
        elif key == "m44>m":
            r = v[..., :3, :3].clone() if w % 2 else v[..., :3, :3]
        elif key == "q>m":
            if self.grad and w % 2:  # lengths do not matter
                v = v * (1 + self.t[..., None] * self.T(self.weights(self.batch + (1,))))
            r = c(rc.quaternion_to_matrix, v)
        elif key == "q>v":
            if self.grad:  # -1 is the identity too, but next to it there are rotations by nearly whole turns about every axis
                v = torch.where((v[..., :1] < 0) & (v[..., 1:].norm(dim=-1, keepdim=True) < 0.1), -v, v)
            r = c(rc.quaternion_to_axis_angle, v)
        elif key == "q>x":
            r = c(rc.wxyz_to_xyzw, v)
        elif key == "q>std":
            r = c(rc.standardize_quaternion, v)
            if not bool((r[..., 0] >= 0).all()):
                raise Mismatch("rotation", "standardized to %s" % r)
            b = "q"
        elif key == "x>q":
            r = c(rc.xyzw_to_wxyz, v)
        elif key == "x>m44":
            r = c(rc.pos_rot_to_matrix, self.position(), v)
        elif key == "v>m":
            r = c(rc.axis_angle_to_matrix, v)
        elif key == "v>q":
            r = c(rc.axis_angle_to_quaternion, v)
        elif key == "v>aa":
            n = np.linalg.norm(self.N(v), axis=-1)
            r = (v / v.norm(dim=-1, keepdim=True), v.norm(dim=-1)) if self.grad else (
                self.T(np.where(n[..., None] > 0, self.N(v) / np.where(n > 0, n, 1)[..., None], [0, 0, 1.])), self.T(n))
            if w % 2:  # about the opposite axis by the opposite angle
                r = -r[0], -r[1]
        elif key == "aa>m":
            r = c(rc.axis_and_angle_to_matrix_33, *v)
        elif key == "aa>m44":
            r = c(rc.axis_and_angle_to_matrix_44, *v)
            if not bool((r[..., :3, 3] == 0).all()):
                raise Mismatch("position", "%s" % r)
            r = r.clone()
            r[..., :3, 3] = self.position()
        elif key == "aa>v":
            r = v[0] * v[1][..., None]
        elif key == "d6>m":
            if w % 2:  # Gram-Schmidt removes lengths and the component along the first
                k, l = (2, 0.5) if self.grad else (10 ** self.rng.uniform(-6, 6), 10 ** self.rng.uniform(-6, 6))
                v = torch.cat([v[..., :3] * k, v[..., 3:] * l - 0.25 * l * v[..., :3]], -1)
            r = c(rc.rotation_6d_to_matrix, v)
        elif key == "d9>m44":
            r = c(rc.se3_9d_to_matrix44, v)
        elif key == "pr>m44":
            r = c(rc.pos_rot_to_matrix, *v)
        elif key == "pr>x":
            r = v[1]
        elif key == "e>m":
            r = c(rc.euler_angles_to_matrix, v, ev["fconv"])
        elif key == "e>q":
            k = ev["fconv"].lower()
            forms = [(v, ("r" + k,)), (v, (encoded("r" + k),)), (v.flip(-1), ("s" + k[::-1],)),
                     (v.flip(-1), (encoded("s" + k[::-1]),))] + [(v.flip(-1), ())] * (k == "zyx")
            rs = [c(rc.quaternion_from_euler, a, *x) for a, x in forms]
            r = rs[w % len(rs)]
            for f, q in zip(forms, rs):  # the same rotation about moving axes and about fixed ones
                if q.shape != r.shape or float((1 - (q * r).sum(-1).abs()).abs().max()) > TOL[self.f]:
                    raise Mismatch("quaternion_from_euler %s" % (f[1],), "%s, and %s" % (q, r))
        else:
            raise AssertionError(key)
        self.rep, self.conv, self.val = b, ev["conv"] if b == "e" else "", r
        self.tick("converted_" + key)

    def quats(self, ev):
        q, k = unit(ev["by"]), len(ev["by"])
        q = h_mul(h_mul(self.A[:k], q), h_inv(self.A[:k])) if ev["left"] else h_mul(h_mul(h_inv(self.D[:k]), q), self.D[:k])
        n = int(np.prod(self.batch))
        if len(q) == n:
            return self.T(q.reshape(self.batch + (4,)))
        return self.T(q[0] if self.rng.random() < .5 else q.reshape((1,) * len(self.batch) + (4,)))

    def multiply(self, ev):
        p = self.quats(ev)
        a, b = (p, self.val) if ev["left"] else (self.val, p)
        if ev["way"] % 2:
            self.val = self.call(rc.quaternion_raw_multiply, a, b)
        else:
            self.val = self.call(rc.quaternion_multiply, a, b)
            if not bool((self.val[..., 0] >= 0).all()):
                raise Mismatch("rotation", "product %s" % self.val)

    def invert(self, ev):
        self.A, self.D = h_inv(self.D), h_inv(self.A)
        self.val = self.call(rc.quaternion_invert, self.val)

    def apply(self, ev):
        pts = np.array(ev["pts"], dtype=float)
        pts = np.einsum("nji,nj->ni", q_den(self.D[:len(pts)]), pts)
        n = int(np.prod(self.batch))
        x = self.T(pts.reshape(self.batch + (3,)) if len(pts) == n else pts[0])
        if self.grad:
            x.requires_grad_()
        y = self.call(rc.quaternion_apply, self.val, x)
        got = self.N(y)
        want = np.array([np.array(o[:3], dtype=float) / o[3] for o in ev["out"]])
        want = np.einsum("nij,nj->ni", q_den(self.A), want).reshape(self.batch + (3,))
        if got.shape != want.shape or not np.max(np.abs(got - want)) <= TOL[self.f] * 10:
            raise Mismatch("apply", "%s of %s gives\n%s instead of\n%s" % (self.val, x, got, want))
        self.tick("applied", n)
        if self.grad:
            u = self.weights(self.batch + (3,))
            g = torch.autograd.grad((self.T(u) * y).sum(), (self.t, x), retain_graph=True)
            w = self.moving(ev).reshape(self.batch + (3,))
            self.same("of applying", g[0], np.sum(u * np.cross(w, want), -1))
            m = self.real(ev["exp"]).reshape(self.batch + (3, 3))
            gx = np.einsum("...ji,...j->...i", m, u)
            self.same("of applying, by the points", g[1], gx if x.dim() == gx.ndim else gx.reshape(-1, 3).sum(0))

    def odd(self, ev):
        """Random rotations are rotations, unusable arguments are rejected."""
        n = 1 + ev["turns"][0] % 4
        leaf = bool(ev["turns"][0] % 2)
        q = rc.random_quaternions(n, dtype=self.d, requires_grad=leaf)
        m = rc.random_rotations(n, dtype=self.d, requires_grad=leaf)
        one = rc.random_rotation(dtype=self.d, requires_grad=leaf)
        for x in (q, m, one):
            if x.requires_grad != leaf and torch.is_grad_enabled():
                raise Mismatch("random", "requires_grad=%s gives %s" % (leaf, x))
        if q.shape != (n, 4) or q.dtype != self.d or not bool((q[:, 0] >= 0).all()) or not bool(((q.norm(dim=1) - 1).abs() < TOL[self.f]).all()):
            raise Mismatch("random", "quaternions %s" % q)
        for r, s in ((m, (n, 3, 3)), (one, (3, 3))):
            g = self.N(r)
            if r.shape != s or r.dtype != self.d or not np.max(np.abs(g @ np.swapaxes(g, -1, -2) - np.eye(3))) < TOL[self.f] or not np.all(np.linalg.det(g) > 0):
                raise Mismatch("random", "rotations %s" % r)
        z = lambda *s: torch.zeros(s, dtype=self.d)
        bad = [lambda: rc.matrix_to_quaternion(z(2, 3, 4)), lambda: rc.matrix_to_quaternion(z(4, 4)),
               lambda: rc.euler_angles_to_matrix(z(2, 2), "XYZ"), lambda: rc.euler_angles_to_matrix(z(3), "XXY"),
               lambda: rc.euler_angles_to_matrix(z(3), "XYY"), lambda: rc.euler_angles_to_matrix(z(3), "XY"),
               lambda: rc.euler_angles_to_matrix(z(3), "XYW"), lambda: rc.matrix_to_euler_angles(z(3, 3), "XXY"),
               lambda: rc.matrix_to_euler_angles(z(3, 3), "ZZX"), lambda: rc.matrix_to_euler_angles(z(3, 3), "XYZX"),
               lambda: rc.matrix_to_euler_angles(z(3, 3), "XQZ"), lambda: rc.matrix_to_euler_angles(z(3, 4), "XYZ"),
               lambda: rc.quaternion_apply(z(4), z(2)), lambda: rc.quaternion_from_euler(z(3), "sxxy")]
        i = ev["f"] + 2 * ev["shape"] + 8 * n
        try:
            bad[i % len(bad)]()
        except Exception:
            self.tick("rejected")
        else:
            raise Mismatch("accepted", "unusable argument %d was not rejected" % (i % len(bad)))
        # a translation along an axis
        axis = self.T(np.array([[0.6, 0, -0.8]] * n))
        t = self.call(rc.axis_and_d_to_pris_matrix, axis, self.T(np.arange(n) - 1.5))
        w = np.tile(np.eye(4), (n, 1, 1))
        w[:, :3, 3] = np.array([[0.6, 0, -0.8]]) * (np.arange(n) - 1.5)[:, None]
        if not np.max(np.abs(self.N(t) - w)) <= TOL[self.f]:
            raise Mismatch("translation", "%s" % t)
        if self.grad:
            d = self.T(np.arange(n) - 1.5)
            axis.requires_grad_(), d.requires_grad_()
            u = self.weights((n, 4, 4))
            g = torch.autograd.grad((self.T(u) * self.call(rc.axis_and_d_to_pris_matrix, axis, d)).sum(), (axis, d))
            self.same("of the translation by the axis", g[0], u[:, :3, 3] * (np.arange(n) - 1.5)[:, None])
            self.same("of the translation by the distance", g[1], u[:, :3, 3] @ np.array([0.6, 0, -0.8]))


def replay(beh, seed, opts):
    w = World(seed, bool(opts.get("grad")))
    torch.manual_seed(seed % (1 << 31))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w.choose(beh)
        for k, ev in enumerate(beh):
            try:
                w.tick("op_" + ev["op"])
                with ambient(1 if opts.get("grad") else random.Random(seed * 37 + k).random()):
                    getattr(w, ev["op"])(ev)
                    w.verify(ev)
                if w.grad:
                    w.differentiate(ev)
                for a, b in w.kept:
                    if not torch.equal(a, b):
                        raise Mismatch("stale", "a result handed out earlier has changed")
            except Mismatch as e:
                raise Mismatch(e.kind, "event %d (%s): %s" % (k + 1, {x: y for x, y in ev.items() if x != "exp"}, e)) from None
    w.tick("behaviours")
    return w.count
