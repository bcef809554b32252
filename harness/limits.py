"""Compares what the solver makes of values outside of their limits with LimitSys."""
import math, random
import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import frame as pkf
import pytorch_kinematics.transforms as tf
from base import Mismatch
from ikrun import rand_pose, unit
from iksolve import CLASSES, Watch

INF = 1000000


def replay(beh, seed, opts):
    rng = random.Random(seed)
    dt = rng.choice((torch.float32, torch.float64))
    joints = beh["joints"]
    n = len(joints)
    unitof = np.array([math.pi / 8 if j["kind"] == "R" else .125 for j in joints])

    def val(v, u):
        return math.copysign(math.inf, v) if abs(v) >= INF else v * u
    lims = [[val(x, u) for x in j["lim"]] for j, u in zip(joints, unitof)]
    frames = [pkf.Frame("base", link=pkf.Link("base"), joint=pkf.Joint(None, joint_type="fixed", dtype=dt))]
    for i, j in enumerate(joints):
        lim = tuple(lims[i])
        if lim == (-math.inf, math.inf) and rng.random() < .7:
            lim = None
        frames.append(pkf.Frame("f%d" % i, link=pkf.Link("f%d" % i), joint=pkf.Joint(
            "j%d" % i, offset=tf.Transform3d(matrix=torch.tensor(rand_pose(rng), dtype=dt), dtype=dt), joint_type={"P": "prismatic", "R": "revolute"}[j["kind"]],
            axis=torch.tensor(unit(rng), dtype=dt), dtype=dt, limits=lim)))
    for a, b in zip(frames, frames[1:]):
        a.add_child(b)
    chain = pk.SerialChain(pk.chain.Chain(frames[0], dtype=dt), frames[-1].name)
    P, R, share = beh["shape"]["p"], beh["shape"]["r"], beh["shape"]["share"]
    v = np.array(beh["values"], dtype=float) * unitof
    starts = torch.tensor(v, dtype=dt).reshape(*(() if share else (P,)), R, n)
    row = (lambda p, r: r) if share else (lambda p, r: p * R + r)
    goal = tf.Transform3d(matrix=torch.tensor(np.array([rand_pose(rng) for _ in range(P)]), dtype=dt), dtype=dt)
    cls = rng.choice(CLASSES)
    common = dict(retry_configs=starts, regularlization=rng.choice((.01, .1, 1.)), pos_tolerance=rng.choice((1e-3, 1.)), rot_tolerance=rng.choice((1e-2, 2.)))
    keep = starts.clone()
    low, high = np.array([x[0] for x in lims]), np.array([x[1] for x in lims])
    off = cls(chain, max_iterations=0, enforce_joint_limits=False, **common).solve(goal)
    on = cls(chain, max_iterations=0, enforce_joint_limits=True, num_limit_refinement_iterations=0, **common).solve(goal)
    more = cls(chain, max_iterations=rng.choice((0, 2)), enforce_joint_limits=True, num_limit_refinement_iterations=rng.choice((1, 4)), **common).solve(goal)
    watch = Watch(0.)
    clip = cls(chain, max_iterations=2, enforce_joint_limits=False, clamp_to_limits=True, line_search=watch, early_stopping_no_improvement=None,
               **dict(common, pos_tolerance=-1.)).solve(goal)
    if not torch.equal(keep, starts):
        raise Mismatch("mutation", "solving changed the initial configurations")
    tol = 1e-5 if dt == torch.float32 else 1e-12
    O, F, M, C = [s.solutions.double().numpy() for s in (on, off, more, clip)]
    count = {"solvers": 4}
    for X in (O, M):
        slack = tol * (1 + np.abs(np.where(np.isfinite(low), low, 0)) + np.abs(np.where(np.isfinite(high), high, 0)))
        if not (np.all(np.isfinite(X)) and np.all(X >= low - slack) and np.all(X <= high + slack)):
            raise Mismatch("limits", "%s: %s outside of %s" % (cls.__name__, X, lims))
    if len(watch.seen) != 2:
        raise Mismatch("iterations", "%d instead of 2" % len(watch.seen))
    second = watch.seen[1][0].double().numpy().reshape(P, R, n)
    for p in range(P):
        for r in range(R):
            same = True
            for j in range(n):
                a = beh["allowed"][row(p, r)][j]
                x, x0, u = O[p, r, j], v[row(p, r), j], unitof[j]
                t = tol * (1 + abs(x0))
                what = "%s: problem %d, retry %d: %s joint in %s: %g became %g" % (cls.__name__, p, r, joints[j]["kind"], lims[j], x0, x)
                k = (x - x0) / (2 * math.pi)
                whole = abs(k - round(k)) * 2 * math.pi <= t
                if a[0] == "is":
                    ok = abs(x - a[1] * u) <= t
                    same = same and abs(x - x0) <= t
                elif a[0] == "turned":
                    ok = any(abs(x - (a[1] + 16 * m) * u) <= t for m in range(a[2]))
                elif a[0] == "turns":
                    ok = whole
                else:
                    ok, same = True, False
                if not ok:
                    raise Mismatch("enforced", what + ", allowed is %s" % a)
                count[a[0]] = count.get(a[0], 0) + 1
                if abs(F[p, r, j] - float(starts.reshape(-1, n)[row(p, r), j])) > 0:
                    raise Mismatch("unmodified", "without enforcement %g became %g" % (x0, F[p, r, j]))
                c = beh["clipped"][row(p, r)][j] * u if abs(beh["clipped"][row(p, r)][j]) < INF else x0
                for y in (second[p, r, j], C[p, r, j]):
                    if abs(y - c) > t:
                        raise Mismatch("clamped", "%s: clamping %g to %s gives %g" % (cls.__name__, x0, lims[j], y))
            if same:
                e = 1e-3 if dt == torch.float32 else 1e-9
                if abs(float(on.err_pos[p, r] - off.err_pos[p, r])) > e or (float(off.err_rot[p, r]) < 3.1 and abs(float(on.err_rot[p, r] - off.err_rot[p, r])) > e):
                    raise Mismatch("pose", "%s: errors %g %g, with limits %g %g" % (cls.__name__, off.err_pos[p, r], off.err_rot[p, r], on.err_pos[p, r], on.err_rot[p, r]))
                count["same_pose"] = count.get("same_pose", 0) + 1
    return count
