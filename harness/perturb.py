"""Replays behaviours of PerturbSys into sample_perturbations."""
import math, random, warnings
import numpy as np
import torch
import pytorch_kinematics.transforms as tf
from base import Mismatch, ambient
from chains import mat
from rotations import DT

ROT, SHIFT = 0.05, 0.25  # spread per unit of the behaviour


def rotvec(R):
    """Rotation vectors of matrices close enough to the identity to have one."""
    out = []
    for m in R:
        w = np.array([m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1]]) / 2
        s, c = np.linalg.norm(w), (np.trace(m) - 1) / 2
        out.append(w * (math.atan2(s, c) / s if s > 1e-9 else 1.0))
    return np.array(out)


class World:
    def __init__(self, seed, grad=False):
        self.rng = random.Random(seed)
        self.grad = grad
        self.count, self.kept = {}, []

    def tick(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def place(self, ev):
        self.f = "f32" if ev["f"] == 0 else "f64"
        self.d = DT[self.f]
        # what the spreads are multiples of
        self.rot, self.shift = ROT, SHIFT
        if self.f == "f64" and self.rng.random() < .6:
            self.rot *= 10 ** self.rng.uniform(-5, 0)
            self.shift *= 10 ** self.rng.uniform(-4, 2)
        self.exp = np.array([mat(p) for p in ev["exp"]])
        self.m = torch.tensor(self.exp, dtype=self.d)
        self.m.requires_grad_(self.grad)
        self.t = tf.Transform3d(matrix=self.m.clone())
        self.past = []

    def sample(self, ev):
        n, a, b = ev["n"], ev["a"] * self.rot, ev["b"] * self.shift
        axis = None
        kw = {}
        if ev["axis"]:
            u = np.array(ev["axis"][:3], dtype=float) / ev["axis"][3]
            axis = torch.tensor(u, dtype=self.d)
            kw["axis_of_rotation"] = axis
            if not ev["perp"] or ev["way"] % 2:
                kw["translation_perpendicular_to_axis_of_rotation"] = ev["perp"]
        torch.manual_seed(1000 + ev["sd"])
        M = self.m if len(self.exp) > 1 else self.m[0] if ev["way"] % 3 else self.m
        keep, akeep = M.clone(), None if axis is None else axis.clone()
        if axis is None and ev["way"] >= 3:
            p = self.t.sample_perturbations(n, a, b)
            if not isinstance(p, tf.Transform3d) or len(p) != n or p.dtype != self.d:
                raise Mismatch("perturbation", "%s of %d in %s" % (type(p), len(p), p.dtype))
            P = p.get_matrix()
        else:
            P = tf.sample_perturbations(M, n, a, b, **kw)
        if not torch.equal(M, keep) or not torch.equal(self.t.get_matrix(), self.m) or (axis is not None and not torch.equal(axis, akeep)):
            raise Mismatch("mutation", "sampling changed its arguments")
        if P.dtype != self.d or P.shape != (n, 4, 4):
            raise Mismatch("perturbation", "%s %s instead of %d in %s" % (P.dtype, tuple(P.shape), n, self.d))
        self.kept.append((P, P.clone()))
        g = P.detach().numpy().astype(np.float64)
        tol = 1e-10 if self.f == "f64" else 1e-4
        R = g[:, :3, :3]
        if not (np.max(np.abs(R @ np.swapaxes(R, 1, 2) - np.eye(3))) < tol and np.all(np.linalg.det(R) > 0) and np.array_equal(g[:, 3], np.tile([0, 0, 0, 1.], (n, 1)))):
            raise Mismatch("rigid", "%s" % g)
        T = self.exp if len(self.exp) > 1 else np.tile(self.exp, (n, 1, 1))
        if a == 0 and not np.max(np.abs(R - T[:, :3, :3])) < tol:
            raise Mismatch("rotation", "changed without spread: %s instead of %s" % (R, T))
        if b == 0 and not np.max(np.abs(g[:, :3, 3] - T[:, :3, 3])) < tol:
            raise Mismatch("translation", "changed without spread: %s instead of %s" % (g, T))
        w = rotvec(R @ np.swapaxes(T[:, :3, :3], 1, 2))
        z = g[:, :3, 3] - T[:, :3, 3]
        if self.grad:  # the same motion is applied whatever the transform
            weights = np.array([self.rng.randrange(-8, 9) / 4 for _ in range(16 * n)]).reshape(n, 4, 4)
            got, = torch.autograd.grad((torch.tensor(weights, dtype=self.d) * P).sum(), self.m)
            want = np.zeros((n, 4, 4))
            want[:, :3, :3] = np.swapaxes(R @ np.swapaxes(T[:, :3, :3], 1, 2), 1, 2) @ weights[:, :3, :3]
            want[:, :3, 3] = weights[:, :3, 3]
            if len(self.exp) == 1:
                want = want.sum(0, keepdims=True)
            if got.shape != want.shape or not np.max(np.abs(got.numpy() - want)) < 100 * tol:
                raise Mismatch("gradient", "%s instead of %s" % (got, want))
            self.tick("gradients", got.numel())
        if a > 0 and not np.all(np.linalg.norm(w, axis=1) > 0 if self.f == "f64" else True):
            raise Mismatch("rotation", "not perturbed: %s" % w)
        if b > 0 and not np.all(np.linalg.norm(z, axis=1) > 0):
            raise Mismatch("translation", "not perturbed: %s" % z)
        if n > 1 and b > 0 and not np.all(np.ptp(z, axis=0).max() > 0):
            raise Mismatch("translation", "all the same: %s" % z)
        if n > 1 and a > 0 and not np.ptp(w, axis=0).max() > 0:
            raise Mismatch("rotation", "all the same: %s" % w)
        if axis is not None:
            if not np.max(np.abs(np.cross(w, u))) < tol * 10:
                raise Mismatch("axis", "rotations %s not about %s" % (w, u))
            if ev["perp"] and not np.max(np.abs(z @ u)) < tol * 10:
                raise Mismatch("axis", "shift %s along %s" % (z, u))
            if not ev["perp"] and b > 0 and not np.max(np.abs(z @ u)) > 0:
                raise Mismatch("axis", "no shift along %s: %s" % (u, z))
        if ev["ref"]:
            o = self.past[ev["ref"] - 1]
            if not np.max(np.abs(w / a - o["w"] / o["a"])) < 100 * tol:
                raise Mismatch("spread", "rotations %s for spread %g, %s for %g" % (w, a, o["w"], o["a"]))
            x, y = z / b, o["z"] / o["b"]
            if axis is not None and ev["perp"] != o["perp"]:
                x, y = x - np.outer(x @ u, u), y - np.outer(y @ u, u)
            if not np.max(np.abs(x - y)) < 100 * tol:
                raise Mismatch("spread", "shifts %s for spread %g, %s for %g" % (z, b, o["z"], o["b"]))
            self.tick("proportional")
        self.past.append(dict(w=w, z=z, a=a, b=b, perp=ev["perp"]))
        if ev["many"]:
            self.many(ev, a, b, kw)
        self.tick("sampled", n)

    def many(self, ev, a, b, kw):
        """Spread and centre of many samples."""
        N = 8000
        g = tf.sample_perturbations(self.m[0], N, a, b, **kw).detach().numpy().astype(np.float64)
        w = rotvec(g[:, :3, :3] @ self.exp[0, :3, :3].T)
        z = g[:, :3, 3] - self.exp[0, :3, 3]
        if ev["axis"]:
            u = np.array(ev["axis"][:3], dtype=float) / ev["axis"][3]
            th = w @ u
            P = np.eye(3) - (np.outer(u, u) if ev["perp"] else 0)
            cov = P * b * b
            if a and not (abs(np.mean(th)) < 0.1 * a and abs(np.std(th) / a - 1) < 0.1):
                raise Mismatch("spread", "angles with mean %g and spread %g instead of 0 and %g" % (np.mean(th), np.std(th), a))
        else:
            cov = np.eye(3) * b * b
            n2 = np.mean(np.sum(w * w, axis=1))
            if a and not (np.max(np.abs(np.mean(w, axis=0))) < 0.1 * a and abs(math.sqrt(n2) / a - 1) < 0.1 and np.max(np.abs(w.T @ w / N / a / a - np.eye(3) / 3)) < 0.08):
                raise Mismatch("spread", "rotations with covariance %s" % (w.T @ w / N))
        if not (np.max(np.abs(np.mean(z, axis=0))) <= 0.1 * b + (1e-10 if self.f == "f64" else 1e-4) and np.max(np.abs(z.T @ z / N - cov)) <= 0.15 * b * b + (1e-20 if self.f == "f64" else 1e-6)):
            raise Mismatch("spread", "shifts with mean %s and covariance %s instead of %s" % (np.mean(z, axis=0), z.T @ z / N, cov))
        # neither is cut off
        if a and not np.max(np.linalg.norm(w, axis=1)) > 3.001 * a or b and not np.max(np.linalg.norm(z, axis=1)) > 3.001 * b:
            raise Mismatch("spread", "no larger angles than %g, no larger shifts than %g" % (np.max(np.linalg.norm(w, axis=1)), np.max(np.linalg.norm(z, axis=1))))
        self.tick("distributions")


def replay(beh, seed, opts):
    w = World(seed, bool(opts.get("grad")))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, ev in enumerate(beh):
            try:
                w.tick("op_" + ev["op"])
                with ambient(1 if opts.get("grad") else random.Random(seed * 37 + k).random()):
                    getattr(w, ev["op"])(ev)
                for a, b in w.kept:
                    if not torch.equal(a, b):
                        raise Mismatch("stale", "a result handed out earlier has changed")
            except Mismatch as e:
                raise Mismatch(e.kind, "event %d (%s): %s" % (k + 1, {x: y for x, y in ev.items() if x != "exp"}, e)) from None
    w.tick("behaviours")
    return w.count
