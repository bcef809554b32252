"""Makes the solver's errors follow a run of IkSys and compares what it keeps and when it stops."""
import math, random
import numpy as np
import torch
import pytorch_kinematics as pk
from pytorch_kinematics import frame as pkf
import pytorch_kinematics.transforms as tf
from base import Mismatch

UP, UR = 0.01, 0.005      # metres and radians per unit of error
AWAY, TURN = 0.7, 0.5     # by how much a target is out of reach


def rot(axis, angle):
    """Rodrigues' formula"""
    x, y, z = np.asarray(axis, dtype=float) / np.linalg.norm(axis)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K


def hom(R=None, t=None):
    m = np.eye(4)
    if R is not None:
        m[:3, :3] = R
    if t is not None:
        m[:3, 3] = t
    return m


def unit(rng):
    v = np.array([rng.gauss(0, 1) for _ in range(3)])
    return v / np.linalg.norm(v)


def rand_pose(rng):
    return hom(rot(unit(rng), rng.uniform(-3, 3)), [rng.uniform(-1, 1) for _ in range(3)])


class Arm:
    """A serial chain with a prismatic joint, a revolute joint at the end effector, or both."""

    def __init__(self, rng, kinds, dt):
        self.kinds = kinds
        parts = []
        for k in kinds:
            parts.append((k, rand_pose(rng), unit(rng)))
        self.parts = parts
        # the end effector is on the axis of the revolute joint
        last = parts[-1]
        self.tool = hom(rot(unit(rng), rng.uniform(-3, 3)), last[2] * rng.uniform(-.5, .5) if last[0] == "R" else [rng.uniform(-.5, .5) for _ in range(3)])

        def T(m):
            return tf.Transform3d(matrix=torch.tensor(m, dtype=dt), dtype=dt)
        frames = [pkf.Frame("base", link=pkf.Link("base"), joint=pkf.Joint(None, joint_type="fixed", dtype=dt))]
        for i, (k, off, ax) in enumerate(parts):
            frames.append(pkf.Frame("f%d" % i, link=pkf.Link("f%d" % i), joint=pkf.Joint(
                "j%d" % i, offset=T(off), joint_type={"P": "prismatic", "R": "revolute"}[k], axis=torch.tensor(ax, dtype=dt), dtype=dt)))
        frames.append(pkf.Frame("tool", link=pkf.Link("tool"), joint=pkf.Joint("t", offset=T(self.tool), joint_type="fixed", dtype=dt)))
        for a, b in zip(frames, frames[1:]):
            a.add_child(b)
        self.chain = pk.SerialChain(pk.chain.Chain(frames[0], dtype=dt), "tool")

    def fk(self, q):
        m = np.eye(4)
        for (k, off, ax), v in zip(self.parts, q):
            m = m @ off @ (hom(rot(ax, v)) if k == "R" else hom(t=ax * v))
        return m @ self.tool


class Script(pk.ik.LineSearch):
    """Chooses the step sizes that make the errors follow the run, and watches the solver."""

    def __init__(self, run, arm, targets, rng):
        self.run, self.arm, self.t, self.rng = run, arm, targets, rng
        self.scale = np.array([UP if k == "P" else UR for k in arm.kinds])
        self.i, self.qs, self.rems, self.why = 0, [], [], None

    def do_line_search(self, chain, q, dq, target_pos, target_wxyz, initial_dx, problem_remaining=None, **kw):
        P, R = self.run["opt"]["np"], self.run["opt"]["nr"]
        self.rems.append(problem_remaining.clone())
        self.qs.append(q.detach().clone())
        i = self.i
        self.i += 1
        if i + 1 >= len(self.run["errs"]):
            raise Mismatch("stop", "another iteration after %d" % i)
        dof = len(self.arm.kinds)
        if q.shape != (P * R, dof) or dq.shape != (P * R, dof):
            raise Mismatch("shape", "line search got q %s and dq %s" % (tuple(q.shape), tuple(dq.shape)))
        Q, D = q.reshape(P, R, dof).double().numpy(), dq.reshape(P, R, dof).double().numpy()
        lr = np.zeros((P, R))
        for p in range(P):
            for r in range(R):
                e, f = self.run["errs"][i][p][r], self.run["errs"][i + 1][p][r]
                off = (Q[p, r] - self.t[p]) / self.scale
                if not np.allclose(np.abs(off), e, atol=0.2):
                    raise Mismatch("iterate", "iteration %d, problem %d, retry %d: errors %s instead of %d" % (i, p, r, off, e))
                if e == f:
                    continue
                sign = self.rng.choice((1, 1, -1))
                d = off * (sign * f / e - 1) * self.scale
                if not abs(D[p, r, 0]) > 1e-9:
                    raise Mismatch("step", "no step at a distance of %s" % off)
                lr[p, r] = d[0] / D[p, r, 0]
        return torch.tensor(lr.reshape(-1), dtype=q.dtype), torch.zeros(P)


def replay(run, seed, opts):
    rng = random.Random(seed)
    o, tol, errs = run["opt"], run["tol"], run["errs"]
    P, R, n = o["np"], o["nr"], run["iters"]
    dt = rng.choice((torch.float32, torch.float64))
    tp, tr = tol
    kinds = {(True, False): "P", (False, True): "R", (True, True): "PR"}[(tp in (50, 100), tr in (50, 100))]
    arm = Arm(rng, kinds, dt)
    scale = np.array([UP if k == "P" else UR for k in kinds])
    dof = len(kinds)
    base = [rng.uniform(-1, 1) for _ in range(P)]
    t = np.array([[b + j for j in range(dof)] for b in base])
    if o["same"]:
        t[:] = t[0]
    # starts at the first errors, on either side of the target
    start = np.zeros((P, R, dof))
    sides = [[rng.choice((1, -1)) for _ in range(R)] for _ in range(P)]
    for p in range(P):
        for r in range(R):
            start[p, r] = t[p] + sides[0 if o["same"] else p][r] * errs[0][p][r] * scale
    poses = np.array([arm.fk(x) for x in t])
    far_p = AWAY * (tp == -1)
    far_r = TURN * (tr == -1)
    u = unit(rng)
    for m in poses:
        m[:3, 3] += far_p * u
        m[:3, :3] = rot(u, far_r) @ m[:3, :3]
    target = tf.Transform3d(matrix=torch.tensor(poses, dtype=dt), dtype=dt)
    count = {"runs": 1, "iterations": n, "kind_" + kinds: 1, "rule_" + o["rule"][0]: 1}
    kw = dict(pos_tolerance={-1: .01, 100000: .01}.get(tp, (tp + .5) * UP), rot_tolerance={-1: .01, 100000: .01}.get(tr, (tr + .5) * UR),
              max_iterations=o["max"], regularlization=rng.choice((.01, .1, 1.)), lm_damping=rng.choice((0., .1, .5)),
              early_stopping_any_converged=o["any"], early_stopping_no_improvement_patience=o["patience"],
              early_stopping_no_improvement={"none": None, "all": "all", "any": "any"}.get(o["rule"][0]) if o["rule"][0] != "ratio" else o["rule"][1] / o["rule"][2],
              enforce_joint_limits=rng.random() < .5)   # the chain has no limits
    starts = torch.tensor(start, dtype=dt)
    how = rng.randrange(3)
    if o["same"] and how == 0:
        kw.update(num_retries=R, config_sampling_method=lambda k: starts[0, :k].clone())
    elif o["same"]:
        starts = starts[0].clone()
        kw.update(retry_configs=starts)
    else:
        kw.update(retry_configs=starts)
    keep_starts, keep_target = starts.clone(), target.get_matrix().clone()
    cls = rng.choice((pk.PseudoInverseIK, pk.PseudoInverseIK, pk.ik.PseudoInverseIKWithSVD))
    script = Script(run, arm, t, rng)
    solver = cls(arm.chain, line_search=script, **kw)
    if solver.num_retries != R:
        raise Mismatch("retries", "%d instead of %d" % (solver.num_retries, R))
    first = None
    for again in range(2):
        seed2 = rng.random() if not again else seed2
        script.rng = random.Random(seed2)
        script.i, script.qs, script.rems = 0, [], []
        sol = solver.solve(target)
        check(run, sol, script, t, scale, far_p, far_r, dt)
        if not torch.equal(starts, keep_starts) or not torch.equal(target.get_matrix(), keep_target):
            raise Mismatch("mutation", "solving changed its arguments")
        now = [x.clone() for x in (sol.solutions, sol.err_pos, sol.err_rot, sol.converged, sol.remaining)]
        if first is not None:
            if not all(torch.allclose(a.double(), b.double(), rtol=0, atol=1e-6) for a, b in zip(first, now)):
                raise Mismatch("again", "another call had another outcome")
            if not all(torch.equal(a, b) for a, b in zip(first, [kept.solutions, kept.err_pos, kept.err_rot, kept.converged, kept.remaining])):
                raise Mismatch("stale", "a solution handed out earlier has changed")
        first, kept = now, sol
    return count


def check(run, sol, script, t, scale, far_p, far_r, dt):
    o, errs, n = run["opt"], run["errs"], run["iters"]
    P, R = o["np"], o["nr"]
    if sol.iterations != n or script.i != n:
        raise Mismatch("stop", "%d iterations reported and %d made instead of %d" % (sol.iterations, script.i, n))
    for i, (a, b) in enumerate(zip(script.rems, run["rems"])):
        if a.tolist() != b:
            raise Mismatch("remaining", "iteration %d considers %s instead of %s" % (i, a.tolist(), b))
    if sol.remaining.tolist() != run["rem"]:
        raise Mismatch("remaining", "finally %s instead of %s" % (sol.remaining.tolist(), run["rem"]))
    dof = len(scale)
    for x, shape in ((sol.solutions, (P, R, dof)), (sol.err_pos, (P, R)), (sol.err_rot, (P, R)), (sol.converged, (P, R)), (sol.converged_pos, (P, R)),
                     (sol.converged_rot, (P, R)), (sol.converged_any, (P,)), (sol.converged_pos_any, (P,)), (sol.converged_rot_any, (P,))):
        if tuple(x.shape) != shape:
            raise Mismatch("shape", "%s instead of %s" % (tuple(x.shape), shape))
    if sol.solutions.dtype != dt or sol.err_pos.dtype != dt:
        raise Mismatch("dtype", "%s, %s" % (sol.solutions.dtype, sol.err_pos.dtype))
    S = sol.solutions.double().numpy()
    for p in range(P):
        for r in range(R):
            w = run["sol"][p][r]
            where = "problem %d, retry %d" % (p, r)
            got = (bool(sol.converged[p, r]), bool(sol.converged_pos[p, r]), bool(sol.converged_rot[p, r]))
            if got != (w["c"], w["pos"], w["rot"]):
                raise Mismatch("converged", "%s: converged, in position, in rotation %s instead of %s" % (where, got, (w["c"], w["pos"], w["rot"])))
            off = (S[p, r] - t[p]) / scale
            if w["k"] < n:
                if not np.allclose(S[p, r], script.qs[w["k"]].reshape(P, R, dof)[p, r].double().numpy(), rtol=0, atol=1e-6):
                    raise Mismatch("kept", "%s: %s is not iterate %d: %s" % (where, S[p, r], w["k"], script.qs[w["k"]].reshape(P, R, dof)[p, r]))
            if not np.allclose(np.abs(off), w["e"], atol=.2):
                raise Mismatch("kept", "%s: errors %s instead of %d of iterate %d" % (where, off, w["e"], w["k"]))
            ep = w["e"] * UP if "P" in script.arm.kinds else far_p
            er = w["e"] * UR if "R" in script.arm.kinds else far_r
            if not (abs(float(sol.err_pos[p, r]) - ep) < 2e-3 and abs(float(sol.err_rot[p, r]) - er) < 2e-3):
                raise Mismatch("error", "%s: errors %g, %g instead of %g, %g" % (where, sol.err_pos[p, r], sol.err_rot[p, r], ep, er))
        for name in ("converged", "converged_pos", "converged_rot"):
            if bool(getattr(sol, name + "_any")[p]) != bool(getattr(sol, name)[p].any()):
                raise Mismatch("converged", "problem %d: %s_any is %s" % (p, name, bool(getattr(sol, name + "_any")[p])))
