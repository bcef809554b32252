"""Replays behaviours of RotMathSys into interpolation, distance and exponential maps."""
import math, random, warnings
import numpy as np
import torch
import pytorch_kinematics.transforms as tf
import pytorch_kinematics.transforms.math as tm
import pytorch_kinematics.transforms.so3 as so3
from base import Mismatch, ambient
from rotations import DT, aa_den, h_random, n_hat, q_den, t_q, t_v


def qmul(p, q):
    w, v = p[0] * q[0] - np.dot(p[1:], q[1:]), p[0] * q[1:] + q[0] * p[1:] + np.cross(p[1:], q[1:])
    return np.concatenate([[w], v])


def unit(q):
    q = np.array(q, dtype=np.float64)
    return q / np.linalg.norm(q)


def log_den(R):
    """The rotation vectors of matrices, away from half turns."""
    w = np.stack([R[:, 2, 1] - R[:, 1, 2], R[:, 0, 2] - R[:, 2, 0], R[:, 1, 0] - R[:, 0, 1]], -1) / 2
    s, c = np.linalg.norm(w, axis=-1), (np.trace(R, axis1=1, axis2=2) - 1) / 2
    return w * np.where(s > 1e-9, np.arctan2(s, c) / np.where(s > 0, s, 1), 1)[:, None]


def exp_den(w):
    n = np.linalg.norm(w, axis=-1)
    return aa_den(np.where(n[:, None] > 0, w / np.where(n > 0, n, 1)[:, None], [1., 0, 0]), n)


def slope(f):
    """The derivative of f at 0."""
    h = 1e-4
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


class World:
    def __init__(self, seed, grad=False):
        self.grad = grad
        self.rng = random.Random(seed)
        self.count, self.kept = {}, []

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def call(self, fn, *args, **kw):
        keep = [(a, a.clone()) for a in args if torch.is_tensor(a)]
        r = fn(*args, **kw)
        for a, b in keep:
            if not torch.equal(a, b):
                raise Mismatch("mutation", "%s changed its argument" % fn.__name__)
        if r.dtype != self.d:
            raise Mismatch("dtype", "%s: %s instead of %s" % (fn.__name__, r.dtype, self.d))
        self.kept.append((r, r.clone()))
        return r

    def T(self, x):
        return torch.tensor(np.asarray(x, dtype=np.float64), dtype=self.d)

    def near(self, kind, got, want, tol, what):
        g = got.detach().numpy().astype(np.float64)
        want = np.asarray(want)
        if g.shape != want.shape:
            raise Mismatch(kind, "%s: shape %s instead of %s" % (what, g.shape, want.shape))
        err = np.abs(g - want)
        if not np.all(err <= tol):
            raise Mismatch(kind, "%s: off by %g: %s instead of %s" % (what, np.max(err), g, want))
        self.tick("compared", g.size)

    def tol(self, f64, f32):
        return f64 if self.d == torch.float64 else f32

    def shape(self, ev):
        self.d = DT["f32" if ev["meta"]["f"] == 0 else "f64"]
        n = len(ev.get("arcs", [0]))
        return {0: (n,), 1: (n, 1), 2: (1, n), 3: () if n == 1 else (n // 2, 2) if n % 2 == 0 else (n,)}[ev["meta"]["shape"]]

    def ends(self, ev):
        a = [unit(x["q"]) * (-1 if x["s1"] else 1) for x in ev["arcs"]]
        b = [unit(x["q2"]) * (-1 if x["s2"] else 1) for x in ev["arcs"]]
        return np.array(a), np.array(b)

    def free(self, ev):
        """The same with other arcs: of any length, tiny, or next to half a turn, from anywhere."""
        r = self.rng
        arcs = []
        for x in ev["arcs"]:
            a = h_random(r, "any") if r.random() < .7 else unit(x["q"])
            how = r.choice(["any", "tiny", "half", "close"])
            rel = h_random(r, "any" if how == "close" else how)
            if how == "close":  # where the arc is nearly no longer worth computing
                rel[0], rel[1:] = 1, rel[1:] / np.linalg.norm(rel[1:]) * 10 ** r.uniform(-4, -1)
                rel /= np.linalg.norm(rel)
            if abs(rel[0]) < (1e-5 if ev["meta"]["f"] == 0 else 1e-9):  # nearly as far either way
                rel = h_random(r, "tiny")
            rel *= 1 if rel[0] >= 0 else -1
            arcs.append(dict(x, q=a.tolist(), rel=rel.tolist(), q2=qmul(a, rel).tolist()))
        self.tick("free")
        return dict(ev, arcs=arcs, free=True)

    # -- derivatives along curves through the arguments -----------------
    def some(self, *shape):
        return np.array([self.rng.randrange(-8, 9) / 8 for _ in range(int(np.prod(shape)))]).reshape(shape)

    def curve(self, x, dx, t):
        return self.T(x) + t.reshape(t.shape + (1,) * (np.ndim(x) - t.dim())) * self.T(dx)

    def rate(self, kind, what, t, y, dy, judged, f64, f32):
        """y, whose first axis is that of t, has the derivative dy."""
        u = self.some(*y.shape)
        g, = torch.autograd.grad((self.T(u) * y).sum(), t, retain_graph=True)
        g = g.detach().numpy().astype(np.float64).reshape(len(u), -1).sum(1)
        want = (u * dy).reshape(len(u), -1).sum(1)
        if not np.all(np.isfinite(g)) or not np.all((np.abs(g - want) <= self.tol(f64, f32) * (1 + np.abs(dy).reshape(len(u), -1).max(1)))[judged]):
            raise Mismatch("gradient", "%s: %s instead of %s" % (what, g, want))
        self.tick("gradients_" + kind, int(np.sum(judged)))

    def slerp_rate(self, ev, a, b, fr):
        n = len(a)
        wa, wb, dt = self.some(n, 3), self.some(n, 3), self.some(n)
        if ev["meta"]["way"] % 2:
            wb = wa * 0
        da = np.array([qmul(x, np.append(0, w)) / 2 for x, w in zip(a, wa)])
        db = np.array([qmul(x, np.append(0, w)) / 2 for x, w in zip(b, wb)])
        turn = lambda q, w, h: np.array([qmul(x, unit(np.append(1, h * y / 2))) for x, y in zip(q, w)])
        conj = np.array([1, -1, -1, -1])

        def den(h):
            p, q = turn(a, wa, h), turn(b, wb, h)
            out = []
            for x, y, k, dk in zip(p, q, fr, dt):
                r = qmul(x * conj, y)
                r = r if r[0] >= 0 else -r
                m = np.linalg.norm(r[1:])
                s = math.atan2(m, r[0]) * (k + h * dk)
                out.append(q_den(qmul(x, np.concatenate([[math.cos(s)], math.sin(s) * (r[1:] / m if m > 0 else r[1:])]))))
            return np.array(out)
        t = torch.zeros(n, dtype=self.d, requires_grad=True)
        got = tm.quaternion_slerp(self.curve(a, da, t), self.curve(b, db, t), self.curve(np.array(fr), dt, t))
        gap = np.array([1 - abs(np.dot(x, y)) for x, y in zip(a, b)])
        same = gap < 1e-14
        want = slope(den)
        for i in np.where(same)[0]:  # between equal orientations the velocities are interpolated
            want[i] = q_den(a[i]) @ n_hat(wa[i] + fr[i] * (wb[i] - wa[i]))
        self.rate("slerp", "slerp at %s from %s to %s" % (fr, a, b), t, t_q(got), want, (same | (gap > 1e-3)) & (gap < 0.999 if "free" in ev else True), 1e-6, 1e-2)

    # ------------------------------------------------------------------
    def slerp(self, ev):
        B = self.shape(ev)
        a, b = self.ends(ev)
        exact = [k / x["n"] for k, x in zip(ev["ks"], ev["arcs"])]
        free = [self.rng.random() for _ in exact]
        for fr in (exact, free):
            if ev["meta"]["way"] % 3 == 0:
                fr = [fr[0]] * len(fr)
                t = fr[0]
            elif ev["meta"]["way"] % 3 == 1:
                t = self.T(np.array(fr).reshape(B))
            else:
                fr = [fr[0]] * len(fr)
                t = self.T(fr[0])
            got = self.call(tm.quaternion_slerp, self.T(a.reshape(B + (4,))), self.T(b.reshape(B + (4,))), t)
            if got.shape != B + (4,):
                raise Mismatch("slerp", "shape %s" % (got.shape,))
            want, speed = [], []
            for i, x in enumerate(ev["arcs"]):
                v = np.array(x["rel"][1:], dtype=float)
                n = np.linalg.norm(v)
                half = math.atan2(n, x["rel"][0]) * fr[i]
                r = np.concatenate([[math.cos(half)], math.sin(half) * (v / n if n else v)])
                k = fr[i] * x["n"]
                if fr is exact and "free" not in ev and ev["meta"]["way"] % 3 == 1:
                    # exactly the k-th power of the step
                    p = np.array([1., 0, 0, 0])
                    for _ in range(ev["ks"][i]):
                        p = qmul(p, unit(x["s"]))
                    assert abs(abs(np.dot(p, r)) - 1) < 1e-12
                want.append(q_den(qmul(unit(x["q"]), r)))
            g = got.detach().numpy().astype(np.float64).reshape(-1, 4)
            if not np.all(np.abs(np.linalg.norm(g, axis=-1) - 1) < 1e-5):
                raise Mismatch("slerp", "not of unit length: %s" % g)
            err = np.max(np.abs(q_den(g) - np.array(want)), axis=(-1, -2))
            if not np.all(err < self.tol(1e-8, 2e-5)):
                i = int(np.argmax(~(err < self.tol(1e-8, 2e-5))))
                raise Mismatch("slerp", "%s of %s and %s gives %s, off by %g (%d in batch)" % (fr[i], a[i], b[i], g[i], err[i], len(g)))
            self.tick("slerped", len(g))
            if self.grad:
                self.slerp_rate(ev, a, b, fr)

    def distance(self, ev):
        B = self.shape(ev)
        a, b = self.ends(ev)
        true = np.array([2 * math.atan2(math.sqrt(sum(c * c for c in x["rel"][1:])), abs(x["rel"][0])) for x in ev["arcs"]])
        for p, q in ((a, b), (b, a), (a, -b)):
            got = self.call(tm.quaternion_angular_distance, self.T(p.reshape(B + (4,))), self.T(q.reshape(B + (4,))))
            if got.shape != B:
                raise Mismatch("distance", "shape %s" % (got.shape,))
            g = got.detach().numpy().astype(np.float64).reshape(-1)
            # nearly equal orientations may count as equal
            ok = (np.abs(g - true) < self.tol(1e-10, 1e-4)) | ((true < 0.0201) & (g == 0))
            if not np.all(ok):
                raise Mismatch("distance", "%s and %s: %s instead of %s" % (p, q, g, true))
        self.tick("distances", 3 * len(true))
        if self.grad:
            w = self.some(len(a), 3)
            v = np.array([np.array(x["rel"][1:]) / max(1e-300, np.linalg.norm(x["rel"][1:])) for x in ev["arcs"]])
            t = torch.zeros(len(a), dtype=self.d, requires_grad=True)
            db = np.array([qmul(x, np.append(0, y)) / 2 for x, y in zip(b, w)])
            got = tm.quaternion_angular_distance(self.T(a), self.curve(b, db, t))
            self.rate("distance", "distance of %s and %s" % (a, b), t, got[:, None], np.sum(v * w, -1)[:, None], (true > 0.0201) & (true < 3.14 if "free" in ev else True), 1e-8, 1e-2)
        for eps in (1e-4, 0.01, 0.3):
            s2 = [sum(c * c for c in x["rel"][1:]) / sum(c * c for c in x["rel"]) for x in ev["arcs"]]
            if any(abs(s - eps) < 1e-6 + 0.01 * eps for s in s2):
                continue
            kw = {} if eps == 1e-4 and ev["meta"]["way"] % 2 else {"eps": eps}
            got = tm.quaternion_close(self.T(a.reshape(B + (4,))), self.T(b.reshape(B + (4,))), **kw)
            if bool(got) != all(s < eps for s in s2):
                raise Mismatch("close", "%s and %s within %g: %s" % (a, b, eps, got))
            self.tick("closeness")

    def so3(self, ev):
        self.shape(ev)
        n = len(ev["arcs"])
        rel = [x["rel"] for x in ev["arcs"]]
        ang = np.array([2 * math.atan2(math.sqrt(sum(c * c for c in r[1:])), r[0]) for r in rel])
        axis = np.array([np.array(r[1:]) / max(1e-300, math.sqrt(sum(c * c for c in r[1:]))) for r in rel])
        R = q_den(np.array([unit(r) for r in rel]))
        A = q_den(np.array([unit(x["q"]) for x in ev["arcs"]]))
        v = axis * ang[:, None]
        small = ang < 0.02
        t = self.tol(1e-10, 5e-5)
        got = self.call(so3.so3_exp_map, self.T(v))
        self.near("exp", got, R, np.where(small, 1e-6 + t, t)[:, None, None], "exponential of %s" % v)
        # also of longer vectors
        w = v + axis * 2 * math.pi
        if not small.any():
            self.near("exp", self.call(so3.so3_exp_map, self.T(w)), R, 10 * t, "exponential of %s" % w)
        got = self.call(so3.so3_log_map, self.T(R))
        far = ang < math.pi - 0.05
        if far.all():
            self.near("log", got, v, np.where(small, 2e-6 + t, self.tol(1e-9, 2e-3))[:, None], "logarithm of %s" % R)
            self.near("log", self.call(so3.so3_exp_map, got), R, self.tol(1e-6, 2e-3), "exponential of the logarithm")
        # angles, also relative to another rotation
        R1, R2 = (self.T(R @ A), self.T(A)) if ev["meta"]["way"] % 3 else (self.T(A), self.T(R @ A))
        use = (ang > 0.0201) & far
        for cosbound in (1e-4, 0.0):
            kw = {} if cosbound else {"cos_bound": 0.0}
            g = self.call(so3.so3_rotation_angle, self.T(R), **kw).detach().numpy().astype(float)
            if not np.all(np.abs(g - ang)[use] < self.tol(1e-9, 1e-3)):
                raise Mismatch("angle", "%s instead of %s" % (g, ang))
        g = self.call(so3.so3_relative_angle, R1, R2).detach().numpy().astype(float)
        if g.shape != (n,) or not np.all(np.abs(g - ang)[use] < self.tol(1e-9, 1e-3)):
            raise Mismatch("angle", "relative: %s instead of %s" % (g, ang))
        if not np.all(g[ang < 0.014] < 0.02):
            raise Mismatch("angle", "%s for %s" % (g, ang))
        self.near("angle", self.call(so3.so3_relative_angle, R1, R2, cos_angle=True), np.cos(ang), self.tol(1e-12, 2e-6), "cosine of the relative angle")
        self.near("angle", self.call(so3.so3_rotation_angle, self.T(R), cos_angle=True), np.cos(ang), self.tol(1e-12, 2e-6), "cosine of the angle")
        self.tick("so3", n)
        if self.grad:
            w = self.some(n, 3)
            t = torch.zeros(n, dtype=self.d, requires_grad=True)
            every = np.full(n, True)
            self.rate("exp", "exponential of %s" % v, t, so3.so3_exp_map(self.curve(v, w, t)), slope(lambda h: exp_den(v + h * w)), every, 1e-4 if small.any() else 1e-8, 1e-3)
            moved = lambda R: self.curve(R, n_hat(w) @ R, t)
            self.rate("log", "logarithm of %s" % R, t, so3.so3_log_map(moved(R)), slope(lambda h: log_den(exp_den(h * w) @ R)), far & (ang < 2.8), 1e-3 if small.any() else 1e-7, 2e-2)
            both = (so3.so3_relative_angle(moved(R @ A), self.T(A)), so3.so3_relative_angle(self.T(R @ A), moved(A)), so3.so3_rotation_angle(moved(R)))
            if use.all():   # (documented to have no finite derivative otherwise)
                both += (so3.so3_rotation_angle(moved(R), cos_bound=0.0),)
            along = np.sum(axis * w, -1)
            back = -np.sum(axis * w, -1)
            for i, g in enumerate(both):
                self.rate("angle", "angle %d of %s" % (i, R), t, g[:, None], (back if i == 1 else along)[:, None], use & (ang < 2.8), 1e-7, 2e-2)
            cosine = so3.so3_relative_angle(moved(R @ A), self.T(A), cos_angle=True)
            self.rate("angle", "cosine of %s" % R, t, cosine[:, None], (-np.sin(ang) * along)[:, None], every, 1e-9, 1e-4)

    def hat(self, ev):
        self.shape(ev)
        vs = np.array([ev["v"], ev["w"]], dtype=float)
        h = self.call(so3.hat, self.T(vs))
        self.near("hat", h[0], np.array(ev["hat"], dtype=float).reshape(3, 3), 0, "hat")
        self.near("hat", h[0] @ self.T(vs[1]), np.array(ev["cross"], dtype=float), 0, "hat times vector")
        self.near("hat", self.call(so3.hat_inv, h), vs, 0, "inverse hat")
        k = np.array([2. ** self.rng.randrange(-30, 20) for _ in range(2)])  # they are linear
        h = self.call(so3.hat, self.T(vs * k[:, None]))
        self.near("hat", h[0], np.array(ev["hat"], dtype=float).reshape(3, 3) * k[0], 0, "hat")
        self.near("hat", self.call(so3.hat_inv, h), vs * k[:, None], 0, "inverse hat")
        if self.grad:
            x = self.T(vs).requires_grad_()
            u = self.some(2, 3, 3)
            g, = torch.autograd.grad((self.T(u) * so3.hat(x)).sum(), x)
            s = u - np.swapaxes(u, 1, 2)
            self.near("gradient", g, np.stack([s[:, 2, 1], s[:, 0, 2], s[:, 1, 0]], -1), 0, "of hat")
            g, = torch.autograd.grad((self.T(u[:, 0]) * so3.hat_inv(so3.hat(x))).sum(), x)
            self.near("gradient", g, u[:, 0], 0, "of the inverse hat")

    def acos(self, ev):
        self.shape(ev)
        if self.rng.random() < .5:
            ev = dict(ev, xs=[x + self.rng.uniform(-.5, .5) for x in ev["xs"]])
        lo, hi = ev["lo"] / 100, ev["hi"] / 100
        if ev["meta"]["way"] % 2:
            lo, hi = -abs(hi), abs(hi)
            bound = hi
        else:
            bound = (lo, hi)
        if hi >= 1 or lo <= -1:
            return
        want = []
        for x in ev["xs"]:
            x = x / 100
            b = hi if x >= hi else lo if x <= lo else x
            want.append(math.acos(b) - (x - b) / math.sqrt(1 - b * b))
        got = self.call(tm.acos_linear_extrapolation, self.T(np.array(ev["xs"]) / 100), bound)
        if self.grad:
            x = self.T(np.array(ev["xs"]) / 100).requires_grad_()
            g, = torch.autograd.grad(tm.acos_linear_extrapolation(x, bound).sum(), x)
            self.near("gradient", g, np.array([-1 / math.sqrt(1 - min(max(y / 100, lo), hi) ** 2) for y in ev["xs"]]), self.tol(1e-9, 1e-3), "of the arccosine")
        self.near("acos", got, np.array(want), self.tol(1e-11, 1e-4), "arccosine extrapolated outside of %s" % (bound,))

    def bad(self, ev):
        self.shape(ev)
        z = lambda *s: torch.zeros(s, dtype=self.d)
        eye = lambda k: torch.eye(3, dtype=self.d)[None] * k
        off = 10 ** self.rng.uniform(-2.5, 0)   # by how much they are off
        fns = [lambda: so3.so3_exp_map(z(2, 4)), lambda: so3.so3_log_map(z(2, 3, 4)), lambda: so3.hat(z(3, 2)), lambda: so3.hat_inv(z(1, 4, 3)),
               lambda: so3.hat_inv(eye(off)), lambda: so3.so3_rotation_angle(eye(1 + off)), lambda: so3.so3_rotation_angle(eye(-1 / 3 - off)),
               lambda: tm.acos_linear_extrapolation(z(2), (0.5, 0.2)), lambda: tm.acos_linear_extrapolation(z(2), 1.0), lambda: so3.so3_rotation_angle(z(2, 2, 2))]
        try:
            fns[ev["kind"]]()
        except ValueError:
            self.tick("rejected")
            return
        except Exception as e:
            raise Mismatch("rejected", "unusable argument %d raises %r" % (ev["kind"], e))
        raise Mismatch("accepted", "unusable argument %d was not rejected" % ev["kind"])


def replay(beh, seed, opts):
    w = World(seed, bool(opts.get("grad")))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, ev in enumerate(beh):
            try:
                w.tick("op_" + ev["op"])
                with ambient(1 if opts.get("grad") else random.Random(seed * 37 + k).random()):
                    getattr(w, ev["op"])(w.free(ev) if "arcs" in ev and w.rng.random() < .5 else ev)
                for a, b in w.kept:
                    if not torch.equal(a.nan_to_num(), b.nan_to_num()):
                        raise Mismatch("stale", "a result handed out earlier has changed")
            except Mismatch as e:
                raise Mismatch(e.kind, "event %d (%s): %s" % (k + 1, ev["op"], e)) from None
    w.tick("behaviours")
    return w.count
